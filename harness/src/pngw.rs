//! A PNG writer of our own (stored deflate blocks), so that pictures fed to the tools do not come from
//! the libraries they decode with.
pub fn crc32(data: &[u8]) -> u32 {
    let mut c = !0u32;
    for &b in data { c ^= b as u32; for _ in 0..8 { c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 }; } }
    !c
}
pub fn chunk(out: &mut Vec<u8>, kind: &[u8; 4], body: &[u8]) {
    out.extend((body.len() as u32).to_be_bytes());
    let mut v = kind.to_vec();
    v.extend(body);
    out.extend(&v);
    out.extend(crc32(&v).to_be_bytes());
}
pub fn zlib_stored(data: &[u8]) -> Vec<u8> {
    let mut v = vec![0x78, 0x01];
    let mut it = data.chunks(65535).peekable();
    if data.is_empty() { v.extend([1, 0, 0, 0xff, 0xff]); }
    while let Some(c) = it.next() {
        v.push(it.peek().is_none() as u8);
        v.extend((c.len() as u16).to_le_bytes());
        v.extend((!(c.len() as u16)).to_le_bytes());
        v.extend(c);
    }
    let (mut a, mut b) = (1u32, 0u32);
    for &x in data { a = (a + x as u32) % 65521; b = (b + a) % 65521; }
    v.extend(((b << 16) | a).to_be_bytes());
    v
}
/// Chunks of an RGBA picture with an optional description: (kind, body).
pub fn chunks(w: u32, h: u32, px: &[[u8; 4]], desc: Option<&[u8]>, compressed: bool) -> Vec<([u8; 4], Vec<u8>)> {
    let mut ihdr = vec![];
    ihdr.extend(w.to_be_bytes());
    ihdr.extend(h.to_be_bytes());
    ihdr.extend([8, 6, 0, 0, 0]);
    let mut raw = vec![];
    for row in px.chunks(w.max(1) as usize) { raw.push(0); for p in row { raw.extend(p); } }
    let mut v = vec![(*b"IHDR", ihdr)];
    if let Some(d) = desc {
        let mut t = b"Description\0".to_vec();
        if compressed { t.push(0); t.extend(zlib_stored(d)); v.push((*b"zTXt", t)); } else { t.extend(d); v.push((*b"tEXt", t)); }
    }
    v.push((*b"IDAT", zlib_stored(&raw)));
    v.push((*b"IEND", vec![]));
    v
}
pub fn assemble(chunks: &[([u8; 4], Vec<u8>)]) -> Vec<u8> {
    let mut out = vec![0x89, b'P', b'N', b'G', 13, 10, 26, 10];
    for (k, b) in chunks { chunk(&mut out, k, b); }
    out
}
pub fn png(w: u32, h: u32, px: &[[u8; 4]], desc: Option<&[u8]>) -> Vec<u8> { assemble(&chunks(w, h, px, desc, true)) }
