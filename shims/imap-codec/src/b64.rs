const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn encode(data: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    for c in data.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        out.push(T[(n >> 18 & 63) as usize]);
        out.push(T[(n >> 12 & 63) as usize]);
        out.push(if c.len() > 1 { T[(n >> 6 & 63) as usize] } else { b'=' });
        out.push(if c.len() > 2 { T[(n & 63) as usize] } else { b'=' });
    }
    out
}
pub fn decode(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 { return None; }
    let mut out = Vec::new();
    let chunks = s.len() / 4;
    for (i, c) in s.chunks(4).enumerate() {
        let pad = c.iter().filter(|b| **b == b'=').count();
        if pad > 0 && (i + 1 != chunks || pad > 2 || c[..4 - pad].contains(&b'=')) { return None; }
        let mut n = 0u32;
        for b in c {
            n = n << 6 | if *b == b'=' { 0 } else { T.iter().position(|t| t == b)? as u32 };
        }
        out.push((n >> 16) as u8);
        if pad < 2 { out.push((n >> 8) as u8); }
        if pad < 1 { out.push(n as u8); }
    }
    Some(out)
}
