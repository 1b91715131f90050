/// A TrueType file assembled from its logical contents (OpenType 1.8 tables).
pub struct Ttf {
    pub units: u16,
    pub ascender: u16,
    pub descender: u16,
    pub bbox: [u16; 4],
    pub glyphs: u16,
    pub widths: Vec<u16>,
    pub groups: Vec<(u32, u32, u32)>,
    pub name: Vec<u8>,
}
impl Ttf {
    pub fn bytes(&self) -> Vec<u8> {
        fn p16(d: &mut Vec<u8>, x: u16) {
            d.push((x >> 8) as u8);
            d.push(x as u8);
        }
        fn p32(d: &mut Vec<u8>, x: u32) {
            p16(d, (x >> 16) as u16);
            p16(d, x as u16);
        }
        let mut t: Vec<Vec<u8>> = Vec::new();
        let mut d = Vec::with_capacity(256);
        p16(&mut d, 0);
        p16(&mut d, 1);
        p16(&mut d, 3);
        p16(&mut d, 10);
        p32(&mut d, 12);
        p16(&mut d, 12);
        p16(&mut d, 0);
        p32(&mut d, 16 + 12 * self.groups.len() as u32);
        p32(&mut d, 0);
        p32(&mut d, self.groups.len() as u32);
        for &(a, b, g) in &self.groups {
            p32(&mut d, a);
            p32(&mut d, b);
            p32(&mut d, g);
        }
        t.push(d);
        let mut d = vec![0; 18];
        p16(&mut d, self.units);
        d.extend_from_slice(&[0; 16]);
        for &x in &self.bbox {
            p16(&mut d, x)
        }
        d.extend_from_slice(&[0; 10]);
        t.push(d);
        let mut d = vec![0; 4];
        p16(&mut d, self.ascender);
        p16(&mut d, self.descender);
        d.extend_from_slice(&[0; 26]);
        p16(&mut d, self.widths.len() as u16);
        t.push(d);
        let mut d = Vec::with_capacity(256);
        for &w in &self.widths {
            p16(&mut d, w);
            p16(&mut d, 0);
        }
        t.push(d);
        let mut d = Vec::new();
        p32(&mut d, 0x0001_0000);
        p16(&mut d, self.glyphs);
        t.push(d);
        let mut d = Vec::new();
        for &x in &[0, 1, 18, 1, 0, 0, 6, self.name.len() as u16, 0] {
            p16(&mut d, x)
        }
        d.extend_from_slice(&self.name);
        t.push(d);
        let tags: [&[u8]; 6] = [b"cmap", b"head", b"hhea", b"hmtx", b"maxp", b"name"];
        let mut out = Vec::with_capacity(1024);
        p32(&mut out, 0x0001_0000);
        for &x in &[6, 0, 0, 0] {
            p16(&mut out, x)
        }
        let mut at = 12 + 16 * 6;
        for i in 0..6 {
            out.extend_from_slice(tags[i]);
            p32(&mut out, 0);
            p32(&mut out, at as u32);
            p32(&mut out, t[i].len() as u32);
            at += t[i].len();
        }
        for x in &t {
            out.extend_from_slice(x)
        }
        out
    }
}
