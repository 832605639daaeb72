//! Stand-in for apendleton/morton (the git dependency cannot be fetched here).
//! x goes to the even bits, y to the odd bits.

fn spread(v: u16) -> u32 {
    let mut z = v as u32;
    z = (z | (z << 8)) & 0x00ff_00ff;
    z = (z | (z << 4)) & 0x0f0f_0f0f;
    z = (z | (z << 2)) & 0x3333_3333;
    (z | (z << 1)) & 0x5555_5555
}

fn squash(v: u32) -> u16 {
    let mut z = v & 0x5555_5555;
    z = (z | (z >> 1)) & 0x3333_3333;
    z = (z | (z >> 2)) & 0x0f0f_0f0f;
    z = (z | (z >> 4)) & 0x00ff_00ff;
    ((z | (z >> 8)) & 0xffff) as u16
}

pub fn interleave_morton(x: u16, y: u16) -> u32 {
    spread(x) | (spread(y) << 1)
}

pub fn deinterleave_morton(z: u32) -> (u16, u16) {
    (squash(z), squash(z >> 1))
}
