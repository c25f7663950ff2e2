//! Calls into the system under test, with panics turned into values.
use crate::rng::Rng;
use optivorbis::remuxer::ogg_to_ogg::{OggVorbisStreamMangler, OggVorbisStreamPassthroughMangler, RemuxError, Settings};
use optivorbis::{OggToOgg, Remuxer, VorbisCommentFieldsAction, VorbisOptimizerSettings, VorbisVendorStringAction};
use std::io::{Cursor, Read, Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Cfg {
    pub vendor: u8,
    pub fields: u8,
    pub random: bool,
    pub offset: u32,
    pub ignore: bool,
    pub err_none: bool,
    pub verify: bool,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { vendor: 0, fields: 0, random: false, offset: 0, ignore: false, err_none: true, verify: true }
    }
}
pub const VENDORS: [&str; 5] = ["copy", "replace", "appendTag", "appendShortTag", "empty"];
impl Cfg {
    pub fn random(rng: &mut Rng) -> Cfg {
        Cfg {
            vendor: rng.below(5) as u8,
            fields: rng.chance(1, 3) as u8,
            random: false,
            offset: *rng.pick(&[0, 0, 1, 1000, u32::MAX, u32::MAX - 1, 0x7fff_ffff, 0x8000_0000]),
            ignore: rng.chance(1, 3),
            err_none: true,
            verify: true,
        }
    }
    pub fn opt(&self) -> VorbisOptimizerSettings {
        // The documented defaults are not set, so that they are checked too
        let mut o = VorbisOptimizerSettings::default();
        o.vendor_string_action = match self.vendor {
            0 => VorbisVendorStringAction::Copy,
            1 => VorbisVendorStringAction::Replace,
            2 => return self.fields_opt(o),
            3 => VorbisVendorStringAction::AppendShortTag,
            _ => VorbisVendorStringAction::Empty,
        };
        self.fields_opt(o)
    }
    fn fields_opt(&self, mut o: VorbisOptimizerSettings) -> VorbisOptimizerSettings {
        if self.fields != 0 {
            o.comment_fields_action = VorbisCommentFieldsAction::Delete;
        }
        o
    }
    pub fn settings(&self) -> Settings<OggVorbisStreamPassthroughMangler> {
        let mut s = Settings::default();
        let set = |v: &mut bool, want: bool, default: bool| {
            if want != default {
                *v = want;
            }
        };
        set(&mut s.randomize_stream_serials, self.random, true);
        set(&mut s.ignore_start_sample_offset, self.ignore, false);
        set(&mut s.error_on_no_vorbis_streams, self.err_none, true);
        set(&mut s.verify_ogg_page_checksums, self.verify, true);
        if self.offset != 0 {
            s.first_stream_serial_offset = self.offset;
        }
        s
    }
    pub fn settings_with<M: OggVorbisStreamMangler>(&self, m: M) -> Settings<M> {
        let mut s = mk_settings(m);
        s.randomize_stream_serials = self.random;
        s.first_stream_serial_offset = self.offset;
        s.ignore_start_sample_offset = self.ignore;
        s.error_on_no_vorbis_streams = self.err_none;
        s.verify_ogg_page_checksums = self.verify;
        s
    }
    pub fn remuxer(&self) -> OggToOgg<OggVorbisStreamPassthroughMangler> {
        OggToOgg::new(self.settings(), self.opt())
    }
}
fn mk_settings<M: OggVorbisStreamMangler>(m: M) -> Settings<M> {
    Settings {
        randomize_stream_serials: true,
        first_stream_serial_offset: 0,
        ignore_start_sample_offset: false,
        error_on_no_vorbis_streams: true,
        verify_ogg_page_checksums: true,
        vorbis_stream_mangler: m,
    }
}

#[derive(Debug)]
pub enum Bad {
    Err(RemuxError),
    Panic(String),
}
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Bad::Err(e) => write!(f, "remux returned an error: {e} ({e:?})"),
            Bad::Panic(p) => write!(f, "remux panicked: {p}"),
        }
    }
}
thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Formats the messages of the code under test in the threads which want it. Without a
/// logger, their arguments are not even computed.
struct Log;
thread_local! {
    static LOG: std::cell::Cell<(bool, u64)> = const { std::cell::Cell::new((false, 0)) };
}
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOG.try_with(|l| l.get().0).unwrap_or(false)
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let n = r.args().to_string().len();
            let _ = LOG.try_with(|l| l.set((true, l.get().1 + (n > 0) as u64)));
        }
    }
    fn flush(&self) {}
}
pub fn install_log() {
    log::set_logger(&Log).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
}
/// Starts or stops the formatting of messages in this thread, gives the messages so far.
pub fn set_log(on: bool) -> u64 {
    LOG.with(|l| l.replace((on, 0)).1)
}
pub fn logging() -> bool {
    LOG.with(|l| l.get().0)
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
pub fn remux_io<R: Read + Seek, W: Write, M: OggVorbisStreamMangler>(rm: &OggToOgg<M>, src: R, sink: W) -> Result<W, Bad> {
    match guard(|| rm.remux(src, sink)) {
        Ok(Ok(w)) => Ok(w),
        Ok(Err(e)) => Err(Bad::Err(e)),
        Err(p) => Err(Bad::Panic(p)),
    }
}
pub fn remux(input: &[u8], cfg: &Cfg) -> Result<Vec<u8>, Bad> {
    remux_io(&cfg.remuxer(), Cursor::new(input), Vec::new())
}
