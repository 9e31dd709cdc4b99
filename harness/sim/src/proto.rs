//! Minimal protobuf wire codec (string / bytes / varint fields only).
#[derive(Clone, Debug)]
pub enum Val {
    Varint(u64),
    Bytes(Vec<u8>),
}
pub struct Msg(pub Vec<(u32, Val)>);
fn varint(b: &[u8], i: &mut usize) -> Option<u64> {
    let mut r = 0u64;
    let mut s = 0;
    loop {
        let x = *b.get(*i)?;
        *i += 1;
        r |= ((x & 0x7f) as u64).checked_shl(s)?;
        if x & 0x80 == 0 {
            return Some(r);
        }
        s += 7;
    }
}
pub fn decode(b: &[u8]) -> Option<Msg> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let key = varint(b, &mut i)?;
        let f = (key >> 3) as u32;
        match key & 7 {
            0 => out.push((f, Val::Varint(varint(b, &mut i)?))),
            2 => {
                let n = varint(b, &mut i)? as usize;
                out.push((f, Val::Bytes(b.get(i..i + n)?.to_vec())));
                i += n;
            }
            _ => return None,
        }
    }
    Some(Msg(out))
}
impl Msg {
    pub fn bytes(&self, f: u32) -> Option<&[u8]> {
        self.0.iter().rev().find_map(|(k, v)| match v {
            Val::Bytes(b) if *k == f => Some(b.as_slice()),
            _ => None,
        })
    }
    pub fn str(&self, f: u32) -> String {
        self.bytes(f)
            .map(|b| String::from_utf8_lossy(b).to_string())
            .unwrap_or_default()
    }
    pub fn msg(&self, f: u32) -> Option<Msg> {
        decode(self.bytes(f)?)
    }
    pub fn coin(&self, f: u32) -> Option<(String, u128)> {
        let m = self.msg(f)?;
        Some((m.str(1), m.str(2).parse().ok()?))
    }
}
fn put_varint(mut v: u64, out: &mut Vec<u8>) {
    while v >= 0x80 {
        out.push((v as u8) | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
pub fn field(f: u32, b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    put_varint(((f as u64) << 3) | 2, &mut out);
    put_varint(b.len() as u64, &mut out);
    out.extend_from_slice(b);
    out
}
