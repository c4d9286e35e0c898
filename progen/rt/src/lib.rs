//! Runtime of generated protocol programs: random values, an independent encoder and the codec laws.
pub use brec;
use std::io::{Cursor, Read};

pub struct Rng(pub u64);
impl Rng {
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.u() % n.max(1) as u64) as usize
    }
    pub fn bits(&mut self) -> u128 {
        match self.below(8) {
            0 => 0,
            1 => u128::MAX,
            2 => 1,
            3 => 1 << self.below(128),
            _ => ((self.u() as u128) << 64) | self.u() as u128,
        }
    }
    pub fn bool(&mut self) -> bool {
        self.u() & 1 == 1
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let m = self.below(6);
        (0..n).map(|i| match m { 0 => 0, 1 => 0xff, 2 => i as u8, _ => self.u() as u8 }).collect()
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.bytes(N).try_into().unwrap()
    }
    pub fn string(&mut self) -> String {
        let n = match self.below(5) { 0 => 0, 4 => self.below(300), _ => self.below(12) };
        (0..n).map(|_| *['a', 'Z', '0', ' ', 'ß', '水', '🦀', '\0', '\n'].get(self.below(9)).unwrap()).collect()
    }
    pub fn count(&mut self) -> usize {
        match self.below(8) { 0 => 0, 1 => 1, 7 => self.below(400), _ => self.below(12) }
    }
}

pub fn crc32(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for i in 0..256u32 {
            let mut c = i;
            for _ in 0..8 {
                c = if c & 1 == 1 { 0xEDB88320 ^ (c >> 1) } else { c >> 1 };
            }
            t[i as usize] = c;
        }
        t
    });
    let mut c = !0u32;
    for b in data {
        c = t[((c ^ *b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}
pub fn sum(body: &[u8], n: usize) -> Vec<u8> {
    let mut s = 0x1234_5678_9abc_def0u64 ^ body.len() as u64;
    for b in body {
        s = (s ^ *b as u64).wrapping_mul(0x100000001b3).rotate_left(5);
    }
    let mut r = Rng(s);
    (0..n).map(|_| r.u() as u8).collect()
}
pub fn byte_block(v: &[u8]) -> brec::ByteBlock {
    use brec::ByteBlock::*;
    match v.len() {
        4 => Len4(v.try_into().unwrap()),
        8 => Len8(v.try_into().unwrap()),
        16 => Len16(v.try_into().unwrap()),
        32 => Len32(v.try_into().unwrap()),
        64 => Len64(v.try_into().unwrap()),
        128 => Len128(v.try_into().unwrap()),
        n => panic!("no byte block of {n}"),
    }
}

/// A generated block: values and their independent encoding.
pub trait Model: Sized {
    const KEY: &'static str;
    const NO_CRC: bool;
    const BODY: usize;
    fn sample(r: &mut Rng) -> Self;
    fn body(&self) -> Vec<u8>;
}
pub fn frame<M: Model>(m: &M, sig: [u8; 4]) -> Vec<u8> {
    let body = m.body();
    assert_eq!(body.len(), M::BODY, "{}: model", M::KEY);
    let mut o = sig.to_vec();
    o.extend_from_slice(&body);
    o.extend_from_slice(&if M::NO_CRC { 0 } else { crc32(&body) }.to_le_bytes());
    o
}
/// A generated payload: values and their independent encoding.
pub trait PModel: Sized {
    const KEY: &'static str;
    fn sample(r: &mut Rng) -> Self;
    fn body(&self) -> Vec<u8>;
    /// the checksum of a body
    fn want_crc(body: &[u8]) -> Vec<u8>;
    /// whether the checksum tells about damage
    const CHECKED: bool;
}
impl PModel for Vec<u8> {
    const KEY: &'static str = "Bytes";
    fn sample(r: &mut Rng) -> Self { let n = r.count(); r.bytes(n) }
    fn body(&self) -> Vec<u8> { self.clone() }
    fn want_crc(body: &[u8]) -> Vec<u8> { crc32(body).to_le_bytes().to_vec() }
    const CHECKED: bool = true;
}
impl PModel for String {
    const KEY: &'static str = "String";
    fn sample(r: &mut Rng) -> Self { r.string() }
    fn body(&self) -> Vec<u8> { self.as_bytes().to_vec() }
    fn want_crc(body: &[u8]) -> Vec<u8> { crc32(body).to_le_bytes().to_vec() }
    const CHECKED: bool = true;
}

/// Values that occur as fields of payloads: the independent encoding of the codec behind `bincode`.
pub trait Val: Sized {
    fn sample(r: &mut Rng) -> Self;
    fn put(&self, o: &mut Vec<u8>);
}
macro_rules! ints { ($($t:ty),*) => { $(impl Val for $t {
    fn sample(r: &mut Rng) -> Self { r.bits() as $t }
    fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_le_bytes()) }
})* } }
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl Val for f32 {
    fn sample(r: &mut Rng) -> Self { f32::from_bits(r.bits() as u32) }
    fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_bits().to_le_bytes()) }
}
impl Val for f64 {
    fn sample(r: &mut Rng) -> Self { f64::from_bits(r.bits() as u64) }
    fn put(&self, o: &mut Vec<u8>) { o.extend_from_slice(&self.to_bits().to_le_bytes()) }
}
impl Val for bool {
    fn sample(r: &mut Rng) -> Self { r.bool() }
    fn put(&self, o: &mut Vec<u8>) { o.push(if *self { 1 } else { 0 }) }
}
impl Val for String {
    fn sample(r: &mut Rng) -> Self { r.string() }
    fn put(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(self.len() as u64).to_le_bytes());
        o.extend_from_slice(self.as_bytes());
    }
}
impl<T: Val> Val for Vec<T> {
    fn sample(r: &mut Rng) -> Self { (0..r.count().min(40)).map(|_| T::sample(r)).collect() }
    fn put(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(self.len() as u64).to_le_bytes());
        self.iter().for_each(|x| x.put(o));
    }
}
impl<T: Val> Val for Option<T> {
    fn sample(r: &mut Rng) -> Self { if r.bool() { Some(T::sample(r)) } else { None } }
    fn put(&self, o: &mut Vec<u8>) {
        match self {
            None => o.push(0),
            Some(x) => { o.push(1); x.put(o) }
        }
    }
}
impl<A: Val, B: Val> Val for (A, B) {
    fn sample(r: &mut Rng) -> Self { (A::sample(r), B::sample(r)) }
    fn put(&self, o: &mut Vec<u8>) { self.0.put(o); self.1.put(o) }
}
impl<T: Val, const N: usize> Val for [T; N] {
    fn sample(r: &mut Rng) -> Self { std::array::from_fn(|_| T::sample(r)) }
    fn put(&self, o: &mut Vec<u8>) { self.iter().for_each(|x| x.put(o)) }
}
impl<K: Val + Ord, V: Val> Val for std::collections::BTreeMap<K, V> {
    fn sample(r: &mut Rng) -> Self { (0..r.below(5)).map(|_| (K::sample(r), V::sample(r))).collect() }
    fn put(&self, o: &mut Vec<u8>) {
        o.extend_from_slice(&(self.len() as u64).to_le_bytes());
        self.iter().for_each(|(k, v)| { k.put(o); v.put(o) });
    }
}
impl<T: Val> Val for Box<T> {
    fn sample(r: &mut Rng) -> Self { Box::new(T::sample(r)) }
    fn put(&self, o: &mut Vec<u8>) { (**self).put(o) }
}

pub fn payload_frame<P: PModel + brec::StaticPayloadSignature>(p: &P) -> Vec<u8> {
    let body = p.body();
    let sig = P::ssig().as_slice().to_vec();
    let crc = P::want_crc(&body);
    let mut o = vec![sig.len() as u8];
    o.extend_from_slice(&sig);
    o.push(crc.len() as u8);
    o.extend_from_slice(&crc);
    o.extend_from_slice(&(body.len() as u32).to_le_bytes());
    o.extend_from_slice(&body);
    o
}
pub fn packet_frame(blocks: &[Vec<u8>], payload: Option<&[u8]>) -> Vec<u8> {
    let bl: usize = blocks.iter().map(|b| b.len()).sum();
    let size = bl + payload.map_or(0, |p| p.len());
    let mut f = (size as u64).to_le_bytes().to_vec();
    f.extend_from_slice(&(bl as u64).to_le_bytes());
    f.push(payload.is_some() as u8);
    let mut o = vec![236, 37, 94, 136, 236, 37, 94, 136];
    o.extend_from_slice(&f);
    o.extend_from_slice(&crc32(&f).to_le_bytes());
    blocks.iter().for_each(|b| o.extend_from_slice(b));
    o.extend_from_slice(payload.unwrap_or(&[]));
    o
}

/// Source delivering a few bytes at a time
pub struct Drip<'a>(pub &'a [u8], pub usize);
impl Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
/// Sink taking a few bytes at a time
pub struct Narrow(pub Vec<u8>, pub usize);
impl std::io::Write for Narrow {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.1.min(buf.len());
        self.0.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

pub struct Run {
    pub rng: Rng,
    pub evals: u64,
    pub cases: u64,
}
impl Run {
    pub fn from_env() -> Run {
        let n = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
        let run = Run { rng: Rng(n("PG_SEED", 1).wrapping_mul(0x9E3779B97F4A7C15)), evals: 0, cases: n("PG_CASES", 60) };
        std::panic::set_hook(Box::new(|i| {
            let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("FAIL {} ({})", m.replace('\n', " "), i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
            std::process::exit(1);
        }));
        run
    }
    pub fn done(&self) {
        println!("EVALS {}", self.evals);
    }
}
/// A program may have many large blocks, and it is not optimized.
pub fn on_big_stack(f: fn()) {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).expect("thread").join().expect("joined");
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(40).map(|x| format!("{x:02x}")).collect();
    if b.len() > 40 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
pub fn same(what: &str, got: &[u8], want: &[u8]) {
    if got != want {
        panic!("{what}: got {} want {}", hex(got), hex(want));
    }
}

/// Laws of one block type.  `$wrap`/`$unwrap` go to the unified enum and back.
#[macro_export]
macro_rules! block_laws {
    ($run:expr, $b:ty, $r:ty, $g:ident, $variant:ident) => {{
        use $crate::brec::{self, *};
        use std::io::{Cursor, Seek};
        use $crate::*;
        let run: &mut Run = $run;
        let key = <$b as Model>::KEY;
        let sig: [u8; 4] = *<$r as SignatureU32>::sig();
        println!("SIG {} {}", $crate::hex(&sig), key);
        let full = <$b as Model>::BODY + 8;
        assert_eq!(<$b as StaticSize>::ssize(), full as u64, "{key}: size");
        let cases = run.cases;
        for case in 0..cases {
            run.evals += 1;
            let r = &mut run.rng;
            let v: $b = Model::sample(r);
            let body = v.body();
            let want = frame(&v, sig);
            same(&format!("{key}: checksum"), &CrcU32::crc(&v), &want[full - 4..]);
            // write paths
            let mut o = Vec::new();
            WriteTo::write_all(&v, &mut o).expect(key);
            same(&format!("{key}: write_all"), &o, &want);
            o.clear();
            assert_eq!(WriteTo::write(&v, &mut o).expect(key), full, "{key}: write");
            same(&format!("{key}: write"), &o, &want);
            o.clear();
            WriteVectoredTo::write_vectored_all(&v, &mut o).expect(key);
            same(&format!("{key}: write_vectored_all"), &o, &want);
            o.clear();
            for s in WriteVectoredTo::slices(&v).expect(key).get() {
                o.extend_from_slice(&s);
            }
            same(&format!("{key}: slices"), &o, &want);
            let mut nar = Narrow(Vec::new(), 1 + r.below(9));
            WriteVectoredTo::write_vectored_all(&v, &mut nar).expect(key);
            same(&format!("{key}: write_vectored_all in pieces"), &nar.0, &want);
            // read paths
            let mut tail = want.clone();
            let extra = r.below(9);
            let noise = r.bytes(extra);
            tail.extend_from_slice(&noise);
            let back = <$b as ReadBlockFrom>::read(&mut Drip(&want, 1 + r.below(20)), false).expect(key);
            same(&format!("{key}: read"), &back.body(), &body);
            let back = <$b as ReadBlockFrom>::read(&mut &tail[4..], true).expect(key);
            same(&format!("{key}: read without signature"), &back.body(), &body);
            let mut cur = Cursor::new(&tail[..]);
            match <$b as TryReadFrom>::try_read(&mut cur).expect(key) {
                ReadStatus::Success(x) => same(&format!("{key}: try_read"), &x.body(), &body),
                ReadStatus::NotEnoughData(n) => panic!("{key}: try_read asks for {n} more"),
            }
            assert_eq!(cur.position(), full as u64, "{key}: try_read position");
            let mut s = &tail[..];
            match <$b as TryReadFromBuffered>::try_read(&mut s).expect(key) {
                ReadStatus::Success(x) => same(&format!("{key}: buffered try_read"), &x.body(), &body),
                ReadStatus::NotEnoughData(n) => panic!("{key}: buffered try_read asks for {n} more"),
            }
            assert_eq!(s.len(), extra, "{key}: buffered try_read position");
            let rf = <$r as ReadBlockFromSlice>::read_from_slice(&tail, false).expect(key);
            same(&format!("{key}: checksum of the view"), &CrcU32::crc(&rf), &want[full - 4..]);
            let back: $b = rf.into();
            same(&format!("{key}: view"), &back.body(), &body);
            let rf = <$r as ReadBlockFromSlice>::read_from_slice(&tail[4..], true).expect(key);
            let back: $b = rf.into();
            same(&format!("{key}: view without signature"), &back.body(), &body);
            // prefixes
            let cut = r.below(full);
            assert!(<$b as ReadBlockFrom>::read(&mut &want[..cut], false).is_err(), "{key}: read of a prefix of {cut} bytes");
            let mut cur = Cursor::new(&want[..cut]);
            match <$b as TryReadFrom>::try_read(&mut cur) {
                Ok(ReadStatus::NotEnoughData(_)) => assert_eq!(cur.position(), 0, "{key}: position after a prefix"),
                _ => panic!("{key}: try_read of a prefix of {cut} of {full} bytes"),
            }
            let mut s = &want[..cut];
            match <$b as TryReadFromBuffered>::try_read(&mut s) {
                Ok(ReadStatus::NotEnoughData(_)) => assert_eq!(s.len(), cut, "{key}: buffered position after a prefix"),
                _ => panic!("{key}: buffered try_read of a prefix of {cut} of {full} bytes"),
            }
            assert!(<$r as ReadBlockFromSlice>::read_from_slice(&want[..cut], false).is_err(), "{key}: view of a prefix of {cut} bytes");
            // damage
            let at = r.below(full);
            let mut bad = want.clone();
            bad[at] ^= 1 << r.below(8);
            let results = [
                <$b as ReadBlockFrom>::read(&mut &bad[..], false).ok().map(|x| x.body()),
                <$r as ReadBlockFromSlice>::read_from_slice(&bad, false).ok().map(|x| <$b>::from(x).body()),
                match <$b as TryReadFrom>::try_read(&mut Cursor::new(&bad[..])) { Ok(ReadStatus::Success(x)) => Some(x.body()), _ => None },
                match <$b as TryReadFromBuffered>::try_read(&mut &bad[..]) { Ok(ReadStatus::Success(x)) => Some(x.body()), _ => None },
            ];
            for (n, x) in results.iter().enumerate() {
                if at < 4 {
                    assert!(x.is_none(), "{key}: path {n} reads a foreign signature");
                } else if !<$b as Model>::NO_CRC {
                    if let Some(x) = x {
                        same(&format!("{key}: path {n} accepts damage at {at}"), x, &body);
                    }
                }
                assert_eq!(x, &results[0], "{key}: paths disagree about damage at {at}");
            }
            // the unified type
            let u = $g::Block::$variant(v);
            assert_eq!(Size::size(&u), full as u64, "{key}: size of the unified block");
            o.clear();
            WriteTo::write_all(&u, &mut o).expect(key);
            same(&format!("{key}: unified write_all"), &o, &want);
            o.clear();
            assert_eq!(WriteTo::write(&u, &mut o).expect(key), full);
            same(&format!("{key}: unified write"), &o, &want);
            o.clear();
            for s in WriteVectoredTo::slices(&u).expect(key).get() {
                o.extend_from_slice(&s);
            }
            same(&format!("{key}: unified slices"), &o, &want);
            let mut src = Drip(&tail, 1 + r.below(20));
            match <$g::Block as ReadFrom>::read(&mut src).expect(key) {
                $g::Block::$variant(x) => same(&format!("{key}: unified read"), &x.body(), &body),
                #[allow(unreachable_patterns)]
                _ => panic!("{key}: read as another block"),
            }
            assert_eq!(src.0.len(), extra, "{key}: unified read consumed");
            match <$g::Block as ReadBlockFrom>::read(&mut &tail[..], false).expect(key) {
                $g::Block::$variant(x) => same(&format!("{key}: unified block read"), &x.body(), &body),
                #[allow(unreachable_patterns)]
                _ => panic!("{key}: read as another block"),
            }
            let mut cur = Cursor::new(&tail[..]);
            match <$g::Block as TryReadFrom>::try_read(&mut cur).expect(key) {
                ReadStatus::Success($g::Block::$variant(x)) => same(&format!("{key}: unified try_read"), &x.body(), &body),
                _ => panic!("{key}: unified try_read"),
            }
            assert_eq!(cur.position(), full as u64);
            let mut s = &tail[..];
            match <$g::Block as TryReadFromBuffered>::try_read(&mut s).expect(key) {
                ReadStatus::Success($g::Block::$variant(x)) => same(&format!("{key}: unified buffered try_read"), &x.body(), &body),
                _ => panic!("{key}: unified buffered try_read"),
            }
            assert_eq!(s.len(), extra);
            let rf = <$g::BlockReferred as ReadBlockFromSlice>::read_from_slice(&tail, false).expect(key);
            assert_eq!(Size::size(&rf), full as u64, "{key}: size of the unified view");
            match $g::Block::from(rf) {
                $g::Block::$variant(x) => same(&format!("{key}: unified view"), &x.body(), &body),
                #[allow(unreachable_patterns)]
                _ => panic!("{key}: viewed as another block"),
            }
            let _ = (case, &mut cur as &mut dyn SeekAny);
        }
    }};
}
pub trait SeekAny {}
impl<T: AsRef<[u8]>> SeekAny for Cursor<T> {}

/// A byte that is no value of an enum is refused by every path.
#[macro_export]
macro_rules! enum_laws {
    ($run:expr, $b:ty, $r:ty, $g:ident, $offset:expr, $bad:expr) => {{
        use $crate::brec::*;
        use std::io::Cursor;
        use $crate::*;
        let run: &mut Run = $run;
        let key = <$b as Model>::KEY;
        let sig: [u8; 4] = *<$r as SignatureU32>::sig();
        let v: $b = Model::sample(&mut run.rng);
        let mut bytes = frame(&v, sig);
        let end = bytes.len() - 4;
        bytes[4 + $offset] = $bad;
        if !<$b as Model>::NO_CRC {
            let c = crc32(&bytes[4..end]).to_le_bytes();
            bytes[end..].copy_from_slice(&c);
        }
        run.evals += 1;
        assert!(<$b as ReadBlockFrom>::read(&mut &bytes[..], false).is_err(), "{key}: read takes {} for a value of an enum", $bad);
        assert!(<$r as ReadBlockFromSlice>::read_from_slice(&bytes, false).is_err(), "{key}: view takes {} for a value of an enum", $bad);
        assert!(<$b as TryReadFrom>::try_read(&mut Cursor::new(&bytes[..])).is_err(), "{key}: try_read takes {} for a value of an enum", $bad);
        assert!(<$b as TryReadFromBuffered>::try_read(&mut &bytes[..]).is_err(), "{key}: buffered try_read takes {} for a value of an enum", $bad);
        assert!(<$g::Block as ReadFrom>::read(&mut &bytes[..]).is_err(), "{key}: unified read takes {} for a value of an enum", $bad);
        assert!(<$g::BlockReferred as ReadBlockFromSlice>::read_from_slice(&bytes, false).is_err(), "{key}: unified view takes {} for a value of an enum", $bad);
    }};
}

/// Laws of one payload type.
#[macro_export]
macro_rules! payload_laws {
    ($run:expr, $p:ty, $g:ident, $variant:ident) => {{
        use $crate::brec::{self, *};
        use std::io::Cursor;
        use $crate::*;
        let run: &mut Run = $run;
        let key = <$p as PModel>::KEY;
        let ssig = <$p as StaticPayloadSignature>::ssig();
        println!("PSIG {} {}", $crate::hex(ssig.as_slice()), key);
        for _ in 0..run.cases {
            run.evals += 1;
            let r = &mut run.rng;
            let v: $p = PModel::sample(r);
            let body = v.body();
            let crc = <$p as PModel>::want_crc(&body);
            let want = payload_frame(&v);
            let head = want.len() - body.len();
            same(&format!("{key}: signature"), PayloadSignature::sig(&v).as_slice(), ssig.as_slice());
            same(&format!("{key}: checksum"), PayloadCrc::crc(&v).expect(key).as_slice(), &crc);
            assert_eq!(PayloadSize::size(&v).expect(key), body.len() as u64, "{key}: size");
            same(&format!("{key}: encode"), &PayloadEncode::encode(&v).expect(key), &body);
            let mut v = v;
            let mut o = Vec::new();
            WritePayloadWithHeaderTo::write_all(&mut v, &mut o).expect(key);
            same(&format!("{key}: write_all"), &o, &want);
            o.clear();
            let n = WritePayloadWithHeaderTo::write(&mut v, &mut o).expect(key);
            same(&format!("{key}: write"), &o, &want);
            assert_eq!(n, want.len(), "{key}: write");
            o.clear();
            for s in WriteVectoredPayloadWithHeaderTo::slices(&mut v).expect(key).get() {
                o.extend_from_slice(&s);
            }
            same(&format!("{key}: slices"), &o, &want);
            let u = $g::Payload::$variant(v);
            same(&format!("{key}: unified signature"), PayloadSignature::sig(&u).as_slice(), ssig.as_slice());
            same(&format!("{key}: unified checksum"), PayloadCrc::crc(&u).expect(key).as_slice(), &crc);
            assert_eq!(PayloadSize::size(&u).expect(key), body.len() as u64, "{key}: unified size");
            same(&format!("{key}: unified encode"), &PayloadEncode::encode(&u).expect(key), &body);
            let mut u = u;
            let mut o = Vec::new();
            WriteMutTo::write_all(&mut u, &mut o).expect(key);
            same(&format!("{key}: unified write_all"), &o, &want);
            o.clear();
            let n = WriteMutTo::write(&mut u, &mut o).expect(key);
            same(&format!("{key}: unified write"), &o, &want);
            assert_eq!(n, want.len(), "{key}: unified write");
            o.clear();
            for s in WriteVectoredMutTo::slices(&mut u).expect(key).get() {
                o.extend_from_slice(&s);
            }
            same(&format!("{key}: unified slices"), &o, &want);
            let mut nar = Narrow(Vec::new(), 1 + r.below(9));
            WriteVectoredMutTo::write_vectored_all(&mut u, &mut nar).expect(key);
            same(&format!("{key}: unified write_vectored_all in pieces"), &nar.0, &want);
            let mut src = &want[..];
            let h = <PayloadHeader as ReadFrom>::read(&mut src).expect(key);
            assert_eq!(src.len(), body.len(), "{key}: header");
            same(&format!("{key}: header signature"), h.sig.as_slice(), ssig.as_slice());
            same(&format!("{key}: header checksum"), h.crc.as_slice(), &crc);
            let paths = |bytes: &[u8]| -> [Option<$g::Payload>; 3] {
                [
                    <$g::Payload as ExtractPayloadFrom<$g::Payload>>::read(&mut Drip(bytes, 7), &h).ok(),
                    match <$g::Payload as TryExtractPayloadFrom<$g::Payload>>::try_read(&mut Cursor::new(bytes), &h) { Ok(ReadStatus::Success(x)) => Some(x), _ => None },
                    match <$g::Payload as TryExtractPayloadFromBuffered<$g::Payload>>::try_read(&mut &bytes[..], &h) { Ok(ReadStatus::Success(x)) => Some(x), _ => None },
                ]
            };
            for (n, x) in paths(&want[head..]).into_iter().enumerate() {
                match x {
                    Some($g::Payload::$variant(x)) => same(&format!("{key}: path {n}"), &PModel::body(&x), &body),
                    Some(_) => panic!("{key}: path {n} reads another payload"),
                    None => panic!("{key}: path {n} does not read the payload"),
                }
            }
            if !body.is_empty() {
                let cut = r.below(body.len());
                for (n, x) in paths(&want[head..head + cut]).into_iter().enumerate() {
                    assert!(x.is_none(), "{key}: path {n} reads a payload from {cut} of {} bytes", body.len());
                }
                if <$p as PModel>::CHECKED {
                    let mut bad = want[head..].to_vec();
                    let at = r.below(bad.len());
                    bad[at] ^= 1 << r.below(8);
                    for (n, x) in paths(&bad).into_iter().enumerate() {
                        if let Some(x) = x {
                            same(&format!("{key}: path {n} accepts damage at {at}"), &PayloadEncode::encode(&x).expect(key), &body);
                        }
                    }
                }
            }
        }
    }};
}

/// Laws of packets: `$gb`, `$gp` give a value along with its encoding, `$cb`, `$cp` encode a value.
#[macro_export]
macro_rules! packet_laws {
    ($run:expr, $g:ident, $gb:expr, $gp:expr, $cb:expr, $cp:expr) => {{
        use $crate::brec::{self, *};
        use std::io::{Cursor, Write as _};
        use $crate::*;
        let run: &mut Run = $run;
        let canon = |p: &$g::Packet| -> Vec<u8> {
            let bl: Vec<Vec<u8>> = p.blocks.iter().map($cb).collect();
            let pl = p.payload.as_ref().map($cp);
            packet_frame(&bl, pl.as_deref())
        };
        let rounds = (run.cases / 2).max(1);
        for _ in 0..rounds {
            run.evals += 1;
            let n = 1 + run.rng.below(5);
            let mut stream = Vec::new();
            let mut wants = Vec::new();
            let mut noise = false;
            let mut pure = Vec::new();
            let storage = Cursor::new(Vec::new());
            let mut writer: $g::Writer<Cursor<Vec<u8>>> = $g::Writer::new(storage).expect("writer");
            for _ in 0..n {
                let r = &mut run.rng;
                let nb = match r.below(8) { 0 => 0, 1 => 255, 7 => r.below(60), _ => r.below(6) };
                let mut blocks = Vec::new();
                let mut bw: Vec<Vec<u8>> = Vec::new();
                let mut room = 60_000usize;
                for _ in 0..nb {
                    let (b, w) = $gb(r);
                    room = room.saturating_sub(w.len());
                    if room == 0 {
                        break;
                    }
                    blocks.push(b);
                    bw.push(w);
                }
                let (pl, pw) = if r.below(3) > 0 { let (a, b) = $gp(r); (Some(a), Some(b)) } else { (None, None) };
                let want = packet_frame(&bw, pw.as_deref());
                let mut p = $g::Packet::new(blocks, pl);
                same("packet as built", &canon(&p), &want);
                let mut o = Vec::new();
                WriteMutTo::write_all(&mut p, &mut o).expect("packet");
                same("packet write_all", &o, &want);
                o.clear();
                assert_eq!(WriteMutTo::write(&mut p, &mut o).expect("packet"), want.len());
                same("packet write", &o, &want);
                o.clear();
                WriteVectoredMutTo::write_vectored_all(&mut p, &mut o).expect("packet");
                same("packet write_vectored_all", &o, &want);
                o.clear();
                for s in WriteVectoredMutTo::slices(&mut p).expect("packet").get() {
                    o.extend_from_slice(&s);
                }
                same("packet slices", &o, &want);
                match <$g::Packet as ReadFrom>::read(&mut Drip(&want, 1 + r.below(40))) {
                    Ok(p) => same("packet read", &canon(&p), &want),
                    Err(e) => panic!("packet read: {e}"),
                }
                match <$g::Packet as TryReadFrom>::try_read(&mut Cursor::new(&want[..])) {
                    Ok(ReadStatus::Success(p)) => same("packet try_read", &canon(&p), &want),
                    _ => panic!("packet try_read does not succeed"),
                }
                match <$g::Packet as TryReadFromBuffered>::try_read(&mut &want[..]) {
                    Ok(ReadStatus::Success(p)) => same("packet buffered try_read", &canon(&p), &want),
                    _ => panic!("packet buffered try_read does not succeed"),
                }
                let rules: $g::Rules = $g::Rules::default();
                match $g::Packet::filtered(&mut Cursor::new(&want[..]), &rules) {
                    Ok(LookInStatus::Accepted(_, p)) => same("packet filtered", &canon(&p), &want),
                    _ => panic!("packet is not accepted without rules"),
                }
                let cut = r.below(want.len());
                assert!(<$g::Packet as ReadFrom>::read(&mut &want[..cut]).is_err(), "packet is read from {cut} of {} bytes", want.len());
                if r.below(3) == 0 {
                    let k = r.below(30);
                    stream.extend((0..k).map(|_| 1u8));
                    noise |= k > 0;
                }
                stream.extend_from_slice(&want);
                pure.extend_from_slice(&want);
                writer.insert(p).expect("insert");
                wants.push(want);
            }
            let step = 1 + run.rng.below(3000);
            let mut src = Drip(&stream, step);
            let mut rd: $g::PacketBufReader<Drip> = $g::PacketBufReader::new(&mut src);
            let seen = std::cell::Cell::new(0usize);
            let mut got = 0;
            let mut steps = 0;
            loop {
                steps += 1;
                assert!(steps < 4 * stream.len() + 1000, "stream reader does not end");
                match rd.read() {
                    Ok(NextPacket::Found(p)) => {
                        assert!(got < wants.len(), "stream reader delivers more packets than there are");
                        same("stream reader", &canon(&p), &wants[got]);
                        got += 1;
                        seen.set(got);
                    }
                    Ok(NextPacket::NoData) => break,
                    Ok(_) => {}
                    Err(e) => panic!("stream reader fails on packet {got}: {e}"),
                }
            }
            assert_eq!(got, wants.len(), "stream reader lost packets (foreign bytes: {noise})");
        }
        // storage
        let mut mem = std::path::PathBuf::from(std::env::var("PG_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().display().to_string()));
        mem.push(format!("pg-{}.bin", std::process::id()));
        let _ = std::fs::remove_file(&mem);
        let file = std::fs::OpenOptions::new().create(true).read(true).write(true).open(&mem).expect("scratch");
        let mut wants = Vec::new();
        {
            let mut w: $g::Writer<std::fs::File> = $g::Writer::new(file).expect("writer");
            for _ in 0..12 {
                let r = &mut run.rng;
                let mut blocks = Vec::new();
                let mut bw: Vec<Vec<u8>> = Vec::new();
                for _ in 0..r.below(4) {
                    let (b, w) = $gb(r);
                    blocks.push(b);
                    bw.push(w);
                }
                let (pl, pw) = if r.bool() { let (a, b) = $gp(r); (Some(a), Some(b)) } else { (None, None) };
                wants.push(packet_frame(&bw, pw.as_deref()));
                w.insert($g::Packet::new(blocks, pl)).expect("insert");
            }
        }
        let file = std::fs::File::open(&mem).expect("scratch");
        let mut rd: $g::Reader<std::fs::File> = $g::Reader::new(file).expect("reader");
        assert_eq!(rd.count(), wants.len(), "packets of a storage");
        let mut n = 0;
        for p in rd.iter() {
            same("storage iteration", &canon(&p.expect("storage")), &wants[n]);
            n += 1;
        }
        assert_eq!(n, wants.len(), "iteration over a storage");
        for (i, w) in wants.iter().enumerate().rev() {
            match rd.nth(i) {
                Ok(Some(p)) => same("storage nth", &canon(&p), w),
                _ => panic!("storage has no packet {i}"),
            }
        }
        let _ = std::fs::remove_file(&mem);
    }};
}
