//! Protocol with one payload kind per pair of signature and checksum lengths.
use brec::prelude::*;

#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct BlkA {
    pub v: u32,
}
#[block]
#[derive(Debug, Clone, PartialEq)]
pub struct BlkB {
    pub v: [u8; 7],
}

pub const LENS: [usize; 6] = [4, 8, 16, 32, 64, 128];
pub const KINDS: usize = 36;

/// Signatures share long prefixes: they differ in the last byte, or only in length.
pub fn sig_bytes<const S: usize>(c: usize) -> [u8; S] {
    let mut a = [0u8; S];
    for (i, x) in a.iter_mut().enumerate() {
        *x = (i * 3 + 1) as u8;
    }
    a[S - 1] = c as u8;
    a
}
/// Checksum of C bytes.
pub fn sum<const C: usize>(body: &[u8]) -> [u8; C] {
    let mut a = [0u8; C];
    for (k, ch) in a.chunks_mut(4).enumerate() {
        let mut h = 0x811c9dc5u32 ^ (k as u32).wrapping_mul(0x9E3779B1);
        for b in body {
            h = (h ^ *b as u32).wrapping_mul(0x01000193).rotate_left(5);
        }
        ch.copy_from_slice(&h.to_le_bytes());
    }
    a
}
pub fn mask(data: &[u8]) -> Vec<u8> {
    data.iter().map(|b| b ^ 0x3c).collect()
}

macro_rules! wide {
    ($($k:literal $name:ident $s:literal $sl:ident $c:literal $cl:ident $borrowed:literal;)*) => {
        $(
            #[payload(no_default_sig, no_auto_crc)]
            #[derive(Debug, Clone)]
            pub struct $name {
                pub data: Vec<u8>,
                encoded: Vec<u8>,
            }
            impl $name {
                pub fn new(data: Vec<u8>) -> Self {
                    let encoded = mask(&data);
                    Self { data, encoded }
                }
            }
            impl brec::PayloadSignature for $name {
                fn sig(&self) -> brec::ByteBlock {
                    brec::ByteBlock::$sl(sig_bytes::<$s>($c))
                }
            }
            impl brec::StaticPayloadSignature for $name {
                fn ssig() -> brec::ByteBlock {
                    brec::ByteBlock::$sl(sig_bytes::<$s>($c))
                }
            }
            impl brec::PayloadEncode for $name {
                fn encode(&self) -> std::io::Result<Vec<u8>> {
                    Ok(self.encoded.clone())
                }
            }
            impl brec::PayloadEncodeReferred for $name {
                fn encode(&self) -> std::io::Result<Option<&[u8]>> {
                    Ok(if $borrowed { Some(&self.encoded) } else { None })
                }
            }
            impl brec::PayloadDecode<$name> for $name {
                fn decode(buf: &[u8]) -> std::io::Result<$name> {
                    Ok($name::new(mask(buf)))
                }
            }
            impl brec::PayloadSize for $name {
                fn size(&self) -> std::io::Result<u64> {
                    Ok(self.encoded.len() as u64)
                }
            }
            impl brec::PayloadCrc for $name {
                fn crc(&self) -> std::io::Result<brec::ByteBlock> {
                    Ok(brec::ByteBlock::$cl(sum::<$c>(&self.encoded)))
                }
                fn crc_size() -> usize {
                    $c
                }
            }
        )*
        pub fn make(kind: usize, data: Vec<u8>) -> Payload {
            match kind {
                $($k => Payload::$name($name::new(data)),)*
                36 => Payload::Bytes(data),
                _ => Payload::String(String::from_utf8_lossy(&data).into_owned()),
            }
        }
        /// kind and content
        pub fn look(p: &Payload) -> (usize, Vec<u8>) {
            match p {
                $(Payload::$name(x) => ($k, x.data.clone()),)*
                Payload::Bytes(x) => (36, x.clone()),
                Payload::String(x) => (37, x.as_bytes().to_vec()),
            }
        }
        /// the frame the specification asks for
        pub fn frame(kind: usize, data: &[u8]) -> Vec<u8> {
            let (sig, crc, body): (Vec<u8>, Vec<u8>, Vec<u8>) = match kind {
                $($k => (sig_bytes::<$s>($c).to_vec(), sum::<$c>(&mask(data)).to_vec(), mask(data)),)*
                _ => unreachable!(),
            };
            let mut o = vec![sig.len() as u8];
            o.extend(sig);
            o.push(crc.len() as u8);
            o.extend(crc);
            o.extend((body.len() as u32).to_le_bytes());
            o.extend(body);
            o
        }
        /// reads the body behind `header` as the given kind by the three ways
        pub fn read_as(kind: usize, header: &brec::PayloadHeader, body: &[u8]) -> [Result<Option<Vec<u8>>, brec::Error>; 3] {
            match kind {
                $($k => [
                    <$name as brec::ReadPayloadFrom<$name>>::read(&mut &body[..], header).map(|p| Some(p.data)),
                    <$name as brec::TryReadPayloadFrom<$name>>::try_read(&mut std::io::Cursor::new(body), header).map(|s| match s { ReadStatus::Success(p) => Some(p.data), _ => None }),
                    <$name as brec::TryReadPayloadFromBuffered<$name>>::try_read(&mut &body[..], header).map(|s| match s { ReadStatus::Success(p) => Some(p.data), _ => None }),
                ],)*
                _ => unreachable!(),
            }
        }
        /// every way of writing a struct of the given kind
        pub fn write_as(kind: usize, data: &[u8]) -> std::io::Result<Vec<Vec<u8>>> {
            match kind {
                $($k => {
                    let mut x = $name::new(data.to_vec());
                    let mut a = Vec::new();
                    brec::WritePayloadWithHeaderTo::write_all(&mut x, &mut a)?;
                    let mut b = Vec::new();
                    brec::WritePayloadWithHeaderTo::write(&mut x, &mut b)?;
                    let mut c = Vec::new();
                    brec::WriteVectoredPayloadWithHeaderTo::write_vectored_all(&mut x, &mut c)?;
                    Ok(vec![a, b, c])
                })*
                _ => unreachable!(),
            }
        }
    };
}
wide! {
    0 Pl4x4 4 Len4 4 Len4 false;
    1 Pl4x8 4 Len4 8 Len8 true;
    2 Pl4x16 4 Len4 16 Len16 false;
    3 Pl4x32 4 Len4 32 Len32 true;
    4 Pl4x64 4 Len4 64 Len64 false;
    5 Pl4x128 4 Len4 128 Len128 true;
    6 Pl8x4 8 Len8 4 Len4 false;
    7 Pl8x8 8 Len8 8 Len8 true;
    8 Pl8x16 8 Len8 16 Len16 false;
    9 Pl8x32 8 Len8 32 Len32 true;
    10 Pl8x64 8 Len8 64 Len64 false;
    11 Pl8x128 8 Len8 128 Len128 true;
    12 Pl16x4 16 Len16 4 Len4 false;
    13 Pl16x8 16 Len16 8 Len8 true;
    14 Pl16x16 16 Len16 16 Len16 false;
    15 Pl16x32 16 Len16 32 Len32 true;
    16 Pl16x64 16 Len16 64 Len64 false;
    17 Pl16x128 16 Len16 128 Len128 true;
    18 Pl32x4 32 Len32 4 Len4 false;
    19 Pl32x8 32 Len32 8 Len8 true;
    20 Pl32x16 32 Len32 16 Len16 false;
    21 Pl32x32 32 Len32 32 Len32 true;
    22 Pl32x64 32 Len32 64 Len64 false;
    23 Pl32x128 32 Len32 128 Len128 true;
    24 Pl64x4 64 Len64 4 Len4 false;
    25 Pl64x8 64 Len64 8 Len8 true;
    26 Pl64x16 64 Len64 16 Len16 false;
    27 Pl64x32 64 Len64 32 Len32 true;
    28 Pl64x64 64 Len64 64 Len64 false;
    29 Pl64x128 64 Len64 128 Len128 true;
    30 Pl128x4 128 Len128 4 Len4 false;
    31 Pl128x8 128 Len128 8 Len8 true;
    32 Pl128x16 128 Len128 16 Len16 false;
    33 Pl128x32 128 Len128 32 Len32 true;
    34 Pl128x64 128 Len128 64 Len64 false;
    35 Pl128x128 128 Len128 128 Len128 true;
}

brec::generate!();
