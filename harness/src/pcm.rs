//! Second oracle for losslessness: PCM of the lewton decoder, bit for bit.
use std::panic::{catch_unwind, AssertUnwindSafe};

/// PCM bits of each audio packet; None when lewton does not decode the stream
pub fn decode(packets: &[Vec<u8>]) -> Option<Vec<Vec<Vec<u32>>>> {
    use lewton::audio::{read_audio_packet_generic, PreviousWindowRight};
    use lewton::header::{read_header_ident, read_header_setup};
    if packets.len() < 3 {
        return None;
    }
    catch_unwind(AssertUnwindSafe(|| {
        let id = read_header_ident(&packets[0]).ok()?;
        let su = read_header_setup(&packets[2], id.audio_channels, (id.blocksize_0, id.blocksize_1)).ok()?;
        let mut w = PreviousWindowRight::new();
        let mut v = vec![];
        for p in &packets[3..] {
            let a: Vec<Vec<f32>> = read_audio_packet_generic(&id, &su, p, &mut w).ok()?;
            v.push(a.into_iter().map(|c| c.into_iter().map(|x| x.to_bits()).collect()).collect());
        }
        Some(v)
    }))
    .ok()?
}
