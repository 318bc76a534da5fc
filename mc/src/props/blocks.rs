//! Entry points of the block layer for block sizes chosen at run time. Only these thin
//! functions exist once per block size.
use cryptography::pad::{BitPadding, PkcsPadding};
use cryptography::{BlockCipher, BlockCipherMode, BlockEncryption};

pub struct Entry {
    pub n: usize,
    pub pkcs_pad: fn(&[u8]) -> Vec<u8>,
    pub pkcs_unpad: fn(&[u8]) -> usize,
    pub bit_pad: fn(&[u8]) -> Vec<u8>,
    pub bit_unpad: fn(&[u8]) -> (Vec<u8>, usize),
    pub encrypt: fn(&dyn Cipher, &mut dyn Mode, &[u8], &mut Vec<u8>),
    pub decrypt: fn(&dyn Cipher, &mut dyn Mode, &[u8], &mut Vec<u8>),
}

pub trait Cipher {
    fn apply(&self, encrypt: bool, block: &[u8]) -> Vec<u8>;
}
pub trait Mode {
    fn block(&mut self, encrypt: bool, c: &dyn Cipher, block: &[u8]) -> Vec<u8>;
}

struct C<'a>(&'a dyn Cipher);
impl<const N: usize> BlockCipher<N> for C<'_> {
    fn encrypt(&self, b: [u8; N]) -> [u8; N] {
        self.0.apply(true, &b).try_into().unwrap()
    }
    fn decrypt(&self, b: [u8; N]) -> [u8; N] {
        self.0.apply(false, &b).try_into().unwrap()
    }
}

/// the cipher as the mode received it from the library
struct Given<'a, const N: usize, X: BlockCipher<N>>(&'a X);
impl<const N: usize, X: BlockCipher<N>> Cipher for Given<'_, N, X> {
    fn apply(&self, encrypt: bool, b: &[u8]) -> Vec<u8> {
        let b: [u8; N] = b.try_into().unwrap();
        if encrypt { self.0.encrypt(b).to_vec() } else { self.0.decrypt(b).to_vec() }
    }
}

struct M<'a>(&'a mut dyn Mode);
impl<const N: usize> BlockCipherMode<N> for M<'_> {
    fn encrypt_block<X: BlockCipher<N>>(&mut self, c: &X, b: [u8; N]) -> [u8; N] {
        self.0.block(true, &Given(c), &b).try_into().unwrap()
    }
    fn decrypt_block<X: BlockCipher<N>>(&mut self, c: &X, b: [u8; N]) -> [u8; N] {
        self.0.block(false, &Given(c), &b).try_into().unwrap()
    }
}

fn a<const N: usize>(b: &[u8]) -> [u8; N] {
    b.try_into().unwrap()
}

const fn entry<const N: usize>() -> Entry {
    Entry {
        n: N,
        pkcs_pad: |p| PkcsPadding::<N>.pad(p).to_vec(),
        pkcs_unpad: |b| PkcsPadding::<N>.unpad(a(b)),
        bit_pad: |p| BitPadding::<N>.pad(p).to_vec(),
        bit_unpad: |b| {
            let (b, n) = BitPadding::<N>.unpad(a(b));
            (b.to_vec(), n)
        },
        encrypt: |c, m, msg, o| BlockEncryption::encrypt::<_, _, N>(C(c), M(m), msg, |b| o.push(b)),
        decrypt: |c, m, ct, o| BlockEncryption::decrypt::<_, _, N>(C(c), M(m), ct, |b| o.push(b)),
    }
}

macro_rules! table {
    ($($n:literal),*) => { static TABLE: &[Entry] = &[$(entry::<$n>()),*]; };
}
table!(1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 300);

/// block sizes 1..=256 and 300
pub fn size(n: usize) -> &'static Entry {
    let e = if n == 300 { TABLE.last().unwrap() } else { &TABLE[n - 1] };
    assert_eq!(e.n, n);
    e
}
