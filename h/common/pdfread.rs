// ---------------------------------------------------------------- a PDF reader (ISO 32000-1, 7.2 and 7.3)
#[derive(Clone, PartialEq)]
enum O {
    Int(i64),
    Float(f32),
    Name(Vec<u8>),
    Str(Vec<u8>),
    Arr(Vec<O>),
    Dict(Vec<(Vec<u8>, O)>),
    Ref(i64),
    Op(Vec<u8>),
    Bad,
}
struct P<'a> {
    d: &'a [u8],
    i: usize,
}
fn is_ws(b: u8) -> bool {
    b == 0 || b == 9 || b == 10 || b == 12 || b == 13 || b == 32
}
fn is_delim(b: u8) -> bool {
    b == b'(' || b == b')' || b == b'<' || b == b'>' || b == b'[' || b == b']' || b == b'{' || b == b'}' || b == b'/' || b == b'%'
}
/// Values of hexadecimal digits; a table keeps the solver's paths together.
static HEX: [u8; 256] = {
    let mut t = [255; 256];
    let mut i = 0;
    while i < 10 {
        t[b'0' as usize + i] = i as u8;
        i += 1
    }
    while i < 16 {
        t[b'A' as usize - 10 + i] = i as u8;
        t[b'a' as usize - 10 + i] = i as u8;
        i += 1
    }
    t
};
fn hex(b: u8) -> Option<u8> {
    match HEX[b as usize] {
        255 => None,
        x => Some(x),
    }
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.d.get(self.i).cloned()
    }
    fn ws(&mut self) {
        while let Some(b) = self.peek() {
            if is_ws(b) {
                self.i += 1
            } else {
                break;
            }
        }
    }
    fn lit(&mut self, s: &[u8]) -> bool {
        if self.d.len() - self.i >= s.len() && &self.d[self.i..self.i + s.len()] == s {
            self.i += s.len();
            true
        } else {
            false
        }
    }
    fn int(&mut self) -> Option<i64> {
        let neg = self.peek() == Some(b'-');
        if neg {
            self.i += 1
        }
        let start = self.i;
        let mut x = 0i64;
        while let Some(b) = self.peek() {
            if b >= b'0' && b <= b'9' {
                x = x * 10 + (b - b'0') as i64;
                self.i += 1
            } else {
                break;
            }
        }
        if self.i == start || self.i - start > 18 {
            return None;
        }
        Some(if neg { -x } else { x })
    }
    fn obj(&mut self) -> O {
        self.ws();
        match self.peek() {
            None => O::Bad,
            Some(2) => {
                // The number token written by the dtoa stand-in.
                if self.d.len() - self.i < 5 {
                    return O::Bad;
                }
                let d = &self.d[self.i + 1..];
                self.i += 5;
                O::Float(f32::from_bits(u32::from_le_bytes([d[0], d[1], d[2], d[3]])))
            }
            Some(b'/') => {
                self.i += 1;
                let mut n = Vec::new();
                while let Some(b) = self.peek() {
                    if is_ws(b) || is_delim(b) {
                        break;
                    }
                    self.i += 1;
                    if b != b'#' {
                        n.push(b);
                        continue;
                    }
                    if self.d.len() - self.i < 2 {
                        return O::Bad;
                    }
                    match (hex(self.d[self.i]), hex(self.d[self.i + 1])) {
                        (Some(a), Some(b)) => n.push(a << 4 | b),
                        _ => return O::Bad,
                    }
                    self.i += 2;
                }
                O::Name(n)
            }
            Some(b'(') => {
                self.i += 1;
                let mut depth = 0;
                let mut s = Vec::new();
                loop {
                    let b = match self.peek() {
                        None => return O::Bad,
                        Some(b) => b,
                    };
                    self.i += 1;
                    match b {
                        b'\\' => {
                            let e = match self.peek() {
                                None => return O::Bad,
                                Some(e) => e,
                            };
                            self.i += 1;
                            match e {
                                b'n' => s.push(10),
                                b'r' => s.push(13),
                                b't' => s.push(9),
                                b'b' => s.push(8),
                                b'f' => s.push(12),
                                10 => {}
                                13 => {
                                    if self.peek() == Some(10) {
                                        self.i += 1
                                    }
                                }
                                b'0'..=b'7' => {
                                    let mut x = (e - b'0') as u32;
                                    for _ in 0..2 {
                                        match self.peek() {
                                            Some(b @ b'0'..=b'7') => {
                                                x = x * 8 + (b - b'0') as u32;
                                                self.i += 1
                                            }
                                            _ => break,
                                        }
                                    }
                                    s.push(x as u8)
                                }
                                _ => s.push(e),
                            }
                        }
                        b'(' => {
                            depth += 1;
                            s.push(b)
                        }
                        b')' => {
                            if depth == 0 {
                                return O::Str(s);
                            }
                            depth -= 1;
                            s.push(b)
                        }
                        13 => {
                            // An end-of-line marker inside a string reads as a line feed (7.3.4.2).
                            if self.peek() == Some(10) {
                                self.i += 1
                            }
                            s.push(10)
                        }
                        _ => s.push(b),
                    }
                }
            }
            Some(b'<') => {
                self.i += 1;
                if self.peek() == Some(b'<') {
                    self.i += 1;
                    let mut v = Vec::new();
                    loop {
                        self.ws();
                        if self.lit(b">>") {
                            return O::Dict(v);
                        }
                        match self.obj() {
                            O::Name(k) => match self.obj() {
                                O::Bad | O::Op(_) => return O::Bad,
                                x => v.push((k, x)),
                            },
                            _ => return O::Bad,
                        }
                    }
                }
                let mut s = Vec::new();
                let mut half = None;
                loop {
                    let b = match self.peek() {
                        None => return O::Bad,
                        Some(b) => b,
                    };
                    self.i += 1;
                    if b == b'>' {
                        if let Some(h) = half {
                            s.push(h << 4)
                        }
                        return O::Str(s);
                    }
                    if is_ws(b) {
                        continue;
                    }
                    match hex(b) {
                        None => return O::Bad,
                        Some(x) => match half {
                            None => half = Some(x),
                            Some(h) => {
                                s.push(h << 4 | x);
                                half = None
                            }
                        },
                    }
                }
            }
            Some(b'[') => {
                self.i += 1;
                let mut v = Vec::new();
                loop {
                    self.ws();
                    if self.lit(b"]") {
                        return O::Arr(v);
                    }
                    match self.obj() {
                        O::Bad | O::Op(_) => return O::Bad,
                        x => v.push(x),
                    }
                }
            }
            Some(b) if b == b'-' || (b >= b'0' && b <= b'9') => match self.int() {
                None => O::Bad,
                Some(x) => {
                    match self.peek() {
                        Some(b) if !is_ws(b) && !is_delim(b) => return O::Bad,
                        _ => {}
                    }
                    let save = self.i;
                    if x >= 0 && self.lit(b" 0 R") {
                        match self.peek() {
                            Some(b) if !is_ws(b) && !is_delim(b) => self.i = save,
                            _ => return O::Ref(x),
                        }
                    }
                    O::Int(x)
                }
            },
            Some(b) if is_delim(b) => O::Bad,
            Some(_) => {
                let start = self.i;
                while let Some(b) = self.peek() {
                    if is_ws(b) || is_delim(b) {
                        break;
                    }
                    self.i += 1
                }
                O::Op(self.d[start..self.i].to_vec())
            }
        }
    }
    fn end(&mut self) -> bool {
        self.ws();
        self.i == self.d.len()
    }
}
fn get<'a>(d: &'a O, key: &[u8]) -> &'a O {
    static BAD: O = O::Bad;
    match d {
        O::Dict(v) => {
            let mut found = &BAD;
            for (k, x) in v {
                if k.len() == key.len() && &**k == key {
                    found = x
                }
            }
            found
        }
        _ => &BAD,
    }
}
/// The whole file: objects by number, found only through the cross-reference table.
struct File {
    objects: Vec<(O, Option<Vec<u8>>)>,
    trailer: O,
}
fn number(o: &O) -> usize {
    match *o {
        O::Int(x) if x >= 0 => x as usize,
        _ => !0,
    }
}
fn read_file(d: &[u8]) -> Option<File> {
    if d.len() < 40 || &d[..7] != b"%PDF-1." || d[7] < b'0' || d[7] > b'7' || d[8] != b'\n' {
        return None;
    }
    if &d[d.len() - 5..] != b"%%EOF" {
        return None;
    }
    // The last `startxref`.
    let mut i = d.len() - 9;
    while &d[i..i + 9] != b"startxref" {
        if i == 0 || d.len() - i > 64 {
            return None;
        }
        i -= 1
    }
    let mut p = P { d, i: i + 9 };
    p.ws();
    let at = p.int()? as usize;
    p.ws();
    if !p.lit(b"%%EOF") || at >= d.len() {
        return None;
    }
    let mut p = P { d, i: at };
    if !p.lit(b"xref\n0 ") {
        return None;
    }
    let n = p.int()? as usize;
    if !p.lit(b"\n") {
        return None;
    }
    let table = p.i;
    if d.len() - table < 20 * n {
        return None;
    }
    let mut p = P { d, i: table + 20 * n };
    if !p.lit(b"trailer") {
        return None;
    }
    let trailer = p.obj();
    p.ws();
    if !p.lit(b"startxref") || number(get(&trailer, b"Size")) != n {
        return None;
    }
    let mut objects = Vec::new();
    for k in 0..n {
        let e = &d[table + 20 * k..table + 20 * k + 20];
        if k == 0 {
            if e != b"0000000000 65535 f \n" {
                return None;
            }
            objects.push((O::Bad, None));
            continue;
        }
        if &e[10..] != b" 00000 n \n" {
            return None;
        }
        let offset = P { d: &e[..10], i: 0 }.int()? as usize;
        if offset >= d.len() {
            return None;
        }
        let mut p = P { d, i: offset };
        if offset == 0 || d[offset - 1] != b'\n' || p.int()? as usize != k || !p.lit(b" 0 obj\n") {
            return None;
        }
        let o = p.obj();
        if o == O::Bad {
            return None;
        }
        p.ws();
        let mut stream = None;
        if p.lit(b"stream\n") {
            let len = number(get(&o, b"Length"));
            if len > d.len() || p.i + len > d.len() {
                return None;
            }
            stream = Some(d[p.i..p.i + len].to_vec());
            p.i += len;
            if !p.lit(b"\nendstream") {
                return None;
            }
            p.ws();
        }
        if !p.lit(b"endobj\n") {
            return None;
        }
        objects.push((o, stream));
    }
    Some(File { objects, trailer })
}
impl File {
    fn at(&self, r: &O) -> &O {
        static BAD: O = O::Bad;
        match *r {
            O::Ref(n) if (n as usize) < self.objects.len() => &self.objects[n as usize].0,
            _ => &BAD,
        }
    }
    fn stream(&self, r: &O) -> Option<&[u8]> {
        match *r {
            O::Ref(n) if (n as usize) < self.objects.len() => self.objects[n as usize].1.as_ref().map(|v| &**v),
            _ => None,
        }
    }
    fn catalog(&self) -> &O {
        self.at(get(&self.trailer, b"Root"))
    }
    fn pages(&self) -> &O {
        self.at(get(self.catalog(), b"Pages"))
    }
    fn page(&self, i: usize) -> &O {
        static BAD: O = O::Bad;
        match get(self.pages(), b"Kids") {
            O::Arr(v) if i < v.len() => self.at(&v[i]),
            _ => &BAD,
        }
    }
}
fn name(s: &[u8]) -> O {
    O::Name(s.to_vec())
}
/// A content stream as operators with their operands.
fn operators(d: &[u8]) -> Vec<(Vec<u8>, Vec<O>)> {
    let mut p = P { d, i: 0 };
    let mut out = Vec::new();
    let mut operands = Vec::new();
    while !p.end() {
        match p.obj() {
            O::Op(op) => {
                out.push((op, operands));
                operands = Vec::new()
            }
            O::Bad => {
                v::check(false, "the content stream reads as PDF objects and operators");
                v::end()
            }
            o => operands.push(o),
        }
    }
    v::check(operands.is_empty(), "every operand of the content stream is followed by an operator");
    out
}
fn num(o: &O) -> f32 {
    match *o {
        O::Float(x) => x,
        O::Int(x) => x as f32,
        _ => {
            v::check(false, "the operand is a number");
            v::end()
        }
    }
}
fn is_op(o: &(Vec<u8>, Vec<O>), op: &[u8], operands: usize) -> bool {
    o.0.len() == op.len() && &*o.0 == op && o.1.len() == operands
}

