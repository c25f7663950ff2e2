//! Runs cases that the harness wrote in Rust's interpreter (Miri), which reports undefined behaviour,
//! data races and leaks, and prints what the library did with each.
//! A case: threads, vendor action, fields action, random, ignore, verify, then the input's bytes.
use optivorbis::remuxer::ogg_to_ogg::{OggVorbisStreamPassthroughMangler, Settings};
use optivorbis::{OggToOgg, Remuxer, VorbisCommentFieldsAction, VorbisOptimizerSettings, VorbisVendorStringAction};
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn remuxer(c: &[u8]) -> OggToOgg<OggVorbisStreamPassthroughMangler> {
    let mut o = VorbisOptimizerSettings::default();
    o.vendor_string_action = match c[1] {
        0 => VorbisVendorStringAction::Copy,
        1 => VorbisVendorStringAction::Replace,
        2 => VorbisVendorStringAction::AppendTag,
        3 => VorbisVendorStringAction::AppendShortTag,
        _ => VorbisVendorStringAction::Empty,
    };
    if c[2] != 0 {
        o.comment_fields_action = VorbisCommentFieldsAction::Delete;
    }
    let mut s = Settings::default();
    s.randomize_stream_serials = c[3] != 0;
    s.ignore_start_sample_offset = c[4] != 0;
    s.verify_ogg_page_checksums = c[5] != 0;
    OggToOgg::new(s, o)
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for f in std::env::args().skip(1) {
        println!("begin {f}");
        let c = std::fs::read(&f).unwrap();
        let run = || match catch_unwind(AssertUnwindSafe(|| remuxer(&c).remux(Cursor::new(&c[6..]), Vec::new()))) {
            Ok(Ok(v)) => format!("ok {}", v.iter().map(|b| format!("{b:02x}")).collect::<String>()),
            Ok(Err(e)) => format!("err {e:?}").replace('\n', " "),
            Err(_) => "panic".into(),
        };
        if c[0] == 0 {
            println!("{}", run());
        } else {
            let r: Vec<String> = std::thread::scope(|t| {
                let h: Vec<_> = (0..c[0]).map(|_| t.spawn(run)).collect();
                h.into_iter().map(|h| h.join().unwrap()).collect()
            });
            r.iter().for_each(|r| println!("{r}"));
        }
        println!("end");
    }
}
