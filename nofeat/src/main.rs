//! `vnofeat RANDOM OFFSET IN OUT`: remuxes with the library built without its default features
use optivorbis::remuxer::ogg_to_ogg::Settings;
use optivorbis::{OggToOgg, Remuxer, VorbisOptimizerSettings};
use std::io::Cursor;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut s = Settings::default();
    s.randomize_stream_serials = a[1] == "true";
    s.first_stream_serial_offset = a[2].parse().unwrap();
    let b = std::fs::read(&a[3]).unwrap();
    match OggToOgg::new(s, VorbisOptimizerSettings::default()).remux(Cursor::new(b), Vec::new()) {
        Ok(o) => std::fs::write(&a[4], o).unwrap(),
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(11)
        }
    }
}
