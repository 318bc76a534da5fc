//! Reference models, written from the standards and independent of the code under test.
pub mod aes;
pub mod der;
pub mod md;
pub mod nat;
pub mod oaep;
pub mod rc2;
pub mod rc45;
pub mod sha;
pub mod sha_consts;
pub mod text;

fn un(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn arr<const N: usize>(h: &str) -> [u8; N] {
    un(h).try_into().unwrap()
}
fn want(name: &str, got: &[u8], want: &str) -> Result<(), String> {
    if got == un(want) { Ok(()) } else { Err(format!("{name}: got {}, published {want}", crate::engine::hx(got))) }
}

/// Published vectors; every run of every check starts with this.
pub fn selftest() -> Result<(), String> {
    let pt = arr::<16>("00112233445566778899aabbccddeeff");
    for (n, ct) in [
        (16usize, "69c4e0d86a7b0430d8cdb78070b4c55a"),
        (24, "dda97ca4864cdfe06eaf70a0ec0d7191"),
        (32, "8ea2b7ca516745bfeafc49904b496089"),
    ] {
        let key: Vec<u8> = (0..n as u8).collect();
        let a = aes::Aes::new(&key);
        want("FIPS-197", &a.encrypt(pt), ct)?;
        want("FIPS-197 inverse", &a.decrypt(arr(ct)), "00112233445566778899aabbccddeeff")?;
    }
    for (k, bits, p, c) in [
        ("0000000000000000", 63, "0000000000000000", "ebb773f993278eff"),
        ("ffffffffffffffff", 64, "ffffffffffffffff", "278b27e42e2f0d49"),
        ("3000000000000000", 64, "1000000000000001", "30649edf9be7d2c2"),
        ("88", 64, "0000000000000000", "61a8a244adacccf0"),
        ("88bca90e90875a", 64, "0000000000000000", "6ccf4308974c267f"),
        ("88bca90e90875a7f0f79c384627bafb2", 64, "0000000000000000", "1a807d272bbe5db1"),
        ("88bca90e90875a7f0f79c384627bafb2", 128, "0000000000000000", "2269552ab0f85ca6"),
        ("88bca90e90875a7f0f79c384627bafb216f80a6f85920584c42fceb0be255daf1e", 129, "0000000000000000", "5b78d3a43dfff1f1"),
    ] {
        want("RFC 2268", &rc2::Rc2::new(&un(k), bits).encrypt(arr(p)), c)?;
    }
    for (k, s) in [("Key", "eb9f7781b734ca72a719"), ("Wiki", "6044db6d41b7"), ("Secret", "04d46b053ca87b59")] {
        want("RC4", &rc45::rc4_stream(k.as_bytes(), s.len() / 2), s)?;
    }
    let z = "00000000000000000000000000000000";
    want("RC5", &rc45::Rc5::new(&un(z), 12).encrypt([0; 8]), "21a5dbee154b8f6d")?;
    want("RC5", &rc45::Rc5::new(&un("915f4619be41b2516355a50110a9ce91"), 12).encrypt(arr("21a5dbee154b8f6d")), "f7c013ac5b2b8952")?;
    want("MD2", &md::md2(b""), "8350e5a3e24c153df2275c9f80692773")?;
    want("MD2", &md::md2(b"abc"), "da853b0d3f88d99b30283a69e6ded6bb")?;
    want("MD4", &md::md4(b""), "31d6cfe0d16ae931b73c59d7e0c089c0")?;
    want("MD4", &md::md4(b"abc"), "a448017aaf21d8525fc10ae87aa6729d")?;
    want("MD5", &md::md5(b""), "d41d8cd98f00b204e9800998ecf8427e")?;
    want("MD5", &md::md5(b"abc"), "900150983cd24fb0d6963f7d28e17f72")?;
    want("SHA-1", &sha::sha1(b"abc"), "a9993e364706816aba3e25717850c26c9cd0d89d")?;
    want("SHA-224", &sha::sha224(b"abc"), "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7")?;
    want("SHA-256", &sha::sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    want("SHA-384", &sha::sha384(b"abc"), "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7")?;
    want("SHA-512", &sha::sha512(b"abc"), "ddaf35a193617abacc417349ae20413112e6fa4e89a97ea20a9eeee64b55d39a2192992a274fc1a836ba3c23a3feebbd454d4423643ce80e2a9ac94fa54ca49f")?;
    want("MGF1", &oaep::mgf1(b"bar", 50), "382576a7841021cc28fc4c0948753fb8312090cea942ea4c4e735d10dc724b155f9f6069f289d61daca0cb814502ef04eae1")?;
    want("Base64", text::b64(b"fooba").as_bytes(), "5a6d3976596d453d")?;
    let n = nat::Nat::from_u128(u128::MAX);
    if n.mul(&n).rem(&nat::Nat::from_u128(u128::MAX - 1)).unwrap() != nat::Nat::from_u128(1) {
        return Err("Nat".into());
    }
    Ok(())
}

/// Used while developing, to compare the models with OpenSSL and Python.
pub fn cli(a: &[&str]) {
    let out = match *a {
        ["sha1", m] => sha::sha1(&un(m)).to_vec(),
        ["sha224", m] => sha::sha224(&un(m)).to_vec(),
        ["sha256", m] => sha::sha256(&un(m)).to_vec(),
        ["sha384", m] => sha::sha384(&un(m)).to_vec(),
        ["sha512", m] => sha::sha512(&un(m)).to_vec(),
        ["md2", m] => md::md2(&un(m)).to_vec(),
        ["md4", m] => md::md4(&un(m)).to_vec(),
        ["md5", m] => md::md5(&un(m)).to_vec(),
        ["aes", k, b] => aes::Aes::new(&un(k)).encrypt(arr(b)).to_vec(),
        ["unaes", k, b] => aes::Aes::new(&un(k)).decrypt(arr(b)).to_vec(),
        ["rc2", k, bits, b] => rc2::Rc2::new(&un(k), bits.parse().unwrap()).encrypt(arr(b)).to_vec(),
        ["rc4", k, n] => rc45::rc4_stream(&un(k), n.parse().unwrap()),
        ["oaep", m, k, seed] => oaep::encode(b"", &un(m), k.parse().unwrap(), &un(seed)),
        ["powmod", b, e, m] => nat::Nat::from_be(&un(b)).powmod(&nat::Nat::from_be(&un(e)), &nat::Nat::from_be(&un(m))).to_be(),
        ["rem", b, m] => nat::Nat::from_be(&un(b)).rem(&nat::Nat::from_be(&un(m))).unwrap().to_be(),
        ["b64", m] => text::b64(&un(m)).into_bytes(),
        _ => std::process::exit(2),
    };
    println!("{}", out.iter().map(|b| format!("{b:02x}")).collect::<String>());
}
