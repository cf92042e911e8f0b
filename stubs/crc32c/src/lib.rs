//! Verification stub: CRC-32C written bit by bit (no CPU feature detection, no tables).
pub fn crc32c(data: &[u8]) -> u32 {
    crc32c_append(0, data)
}
pub fn crc32c_append(crc: u32, data: &[u8]) -> u32 {
    let mut c = !crc;
    for b in data {
        c ^= *b as u32;
        let mut i = 0;
        while i < 8 {
            c = (c >> 1) ^ (0x82F63B78 & (0u32.wrapping_sub(c & 1)));
            i += 1;
        }
    }
    !c
}
