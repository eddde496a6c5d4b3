//! C14: identities, signatures, hashes.
#![cfg(not(kani))]
use crate::nd::*;
use linkspace_argon2_identity::*;
use linkspace_cryptography::*;

fn key() -> SigningKey {
    let mut b: [u8; 32] = any();
    if let Ok(k) = SigningKey::try_from(b) { return k }
    b = [0; 32]; b[31] = 1 + any::<u8>() / 2;
    SigningKey::try_from(b).unwrap()
}
fn secret(k: &SigningKey) -> [u8; 32] { k.0.to_bytes().into() }
fn pass() -> Vec<u8> { let n = upto(12); (0..n).map(|_| any()).collect() }
fn costs() -> Costs { let p = 1 + upto(2) as u32; Costs { mem: 8 * p + upto(20) as u32, times: 1 + upto(1) as u32, parallelism: p } }
/// "$argon2d$v=19$m=..,t=..,p=..$SALT$HASH", base64 without padding
fn fields(s: &str) -> Option<(u32, u32, u32, String, String)> {
    let r = s.strip_prefix("$argon2d$v=19$m=")?;
    let (o, r) = r.split_once('$')?; let (salt, hash) = r.split_once('$')?;
    let (m, o) = o.split_once(",t=")?; let (t, p) = o.split_once(",p=")?;
    Some((m.parse().ok()?, t.parse().ok()?, p.parse().ok()?, salt.to_string(), hash.to_string()))
}
fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..=c.len() { o.push(T[(v >> (18 - 6 * k)) as usize & 63] as char) }
    }
    o
}
fn named(k: &SigningKey, text: &str) { ensures!(pubkey(text).ok() == Some(k.pubkey_bytes()), "a decrypted key is the one whose public key the text names"); }

contracts! {
    native round_trip, unwind 1, bias 0 {
        let (k, p, c) = (key(), pass(), costs());
        let t = encrypt(&k, &p, Some(c));
        let f = fields(&t);
        ensures!(matches!(&f, Some((m, s, l, salt, _)) if (*m, *s, *l) == (c.mem, c.times, c.parallelism) && *salt == b64(&k.pubkey_bytes())), "the text records the costs and the public key");
        ensures!(pubkey(&t).ok() == Some(k.pubkey_bytes()), "the public key is readable without a password");
        let d = decrypt(&t, &p);
        ensures!(matches!(&d, Ok(d) if secret(d) == secret(&k)), "the password opens the identity");
        let mut q = p.clone(); if q.is_empty() { q.push(0) } else { let i = upto(q.len() - 1); q[i] ^= 1 << upto(7) }
        ensures!(decrypt(&t, &q).is_err(), "another password does not");
    }
    native forged, unwind 1, bias 0 {
        // the stored bytes are swapped between identities: never a key the text does not name
        let (a, b, p) = (key(), key(), pass());
        let (ta, tb) = (encrypt(&a, &p, Some(INSECURE_COST)), encrypt(&b, &p, Some(INSECURE_COST)));
        let (fa, fb) = (fields(&ta).unwrap(), fields(&tb).unwrap());
        // under the salt of `a`, a hash that decodes to the secret of `b`
        let unb = |s: &str| -> Vec<u8> { let mut acc = 0u32; let mut n = 0; let mut o = vec![]; for c in s.bytes() { let v = match c { b'A'..=b'Z' => c - b'A', b'a'..=b'z' => c - b'a' + 26, b'0'..=b'9' => c - b'0' + 52, b'+' => 62, _ => 63 } as u32; acc = acc << 6 | v; n += 6; if n >= 8 { n -= 8; o.push((acc >> n) as u8); acc &= (1 << n) - 1 } } o };
        let h: Vec<u8> = unb(&fa.4).iter().zip(secret(&a)).zip(secret(&b)).map(|((h, x), y)| h ^ x ^ y).collect();
        for (salt, hash) in [(fa.3.clone(), b64(&h)), (fa.3.clone(), fb.4.clone()), (fb.3.clone(), fa.4.clone()), (fa.3.clone(), b64(&h[..31])), (b64(&b.pubkey_bytes()[..16]), fb.4.clone()), (fa.3.clone(), b64(&{ let mut z = h.clone(); z.iter_mut().for_each(|x| *x = any()); z }))] {
            let t = format!("$argon2d$v=19$m=8,t=1,p=1${salt}${hash}");
            match decrypt(&t, &p) { Ok(k) => named(&k, &t), Err(_) => {} }
        }
        // a text whose stored secret has another public key is refused
        let t = format!("$argon2d$v=19$m=8,t=1,p=1${}${}", fa.3, b64(&h));
        ensures!(decrypt(&t, &p).is_ok() == (secret(&a) == secret(&b)), "a secret that does not belong to the named key is refused");
    }
    native other_salts, unwind 1, bias 0 {
        // a hash made under a salt that is not the public key, chosen so that it decodes to the secret
        let (a, p) = (key(), pass());
        let pk = a.pubkey_bytes();
        let mut salt = pk.to_vec();
        match upto(5) { 0 => salt.truncate(8 + upto(23)), 1 => salt.truncate(31), 2 => { let n = 1 + upto(4); salt.extend((0..n).map(|_| any::<u8>())) } 3 => { salt[upto(31)] ^= 1 << upto(7) } 4 => { let n = 8 + upto(24); salt = pk[32 - n..].to_vec() } _ => salt.reverse() }
        requires!(salt != pk);
        let cfg = argon2::Config { variant: argon2::Variant::Argon2d, version: argon2::Version::Version13, mem_cost: 8, time_cost: 1, lanes: 1, secret: &[], ad: &[], hash_length: 32 };
        let Ok(d) = argon2::hash_raw(&p, &salt, &cfg) else { return };
        let x: Vec<u8> = d.iter().zip(secret(&a)).map(|(d, s)| d ^ s).collect();
        let t = format!("$argon2d$v=19$m=8,t=1,p=1${}${}", b64(&salt), b64(&x));
        ensures!(decrypt(&t, &p).is_err(), "a text that does not name the public key of its secret is refused");
        ensures!(pubkey(&t).ok().map(|k| k.to_vec()) == if salt.len() == 32 { Some(salt) } else { None }, "and names what it says");
    }
    native mangled, unwind 1, bias 0 {
        let (k, p) = (key(), pass());
        let t = encrypt(&k, &p, Some(INSECURE_COST));
        let mut b = t.clone().into_bytes();
        for _ in 0..1 + upto(2) {
            if b.is_empty() { break }
            let i = upto(b.len() - 1);
            // the cost digits stay small
            if (14..26).contains(&i) && upto(1) == 0 { continue }
            match upto(3) { 0 => { b.remove(i); } 1 => { if !(14..26).contains(&i) { b.insert(i, b"$=,mtp0A/+ \xc3"[upto(11)]) } } 2 => b.truncate(i.max(1)), _ => { let c: u8 = any(); b[i] = if (14..26).contains(&i) { b"$,mtp="[c as usize % 6] } else { c } } }
        }
        let Ok(m) = String::from_utf8(b) else { return };
        let pk = pubkey(&m);
        match decrypt(&m, &p) { Ok(d) => { named(&d, &m); ensures!(secret(&d) == secret(&k) || pk.ok() != Some(k.pubkey_bytes()), "and it is that key"); } Err(_) => {} }
        cover!(m != t, "changed");
    }
    native pubkey_text, unwind 1, bias 3 {
        let n = upto(4); let mut s = String::new();
        for i in 0..n { s.push_str(["$argon2d$v=19$", "m=8,t=1,p=1", "$", "", "t=1,m=8", "$argon2i$v=19$", "m=8"][upto(6)]); if any() { let k = upto(40); let v: Vec<u8> = (0..k).map(|_| any()).collect(); s.push_str(&b64(&v)) } if any() { s.push('$') } }
        let salt: Vec<u8> = { let k = if any() { 32 } else { upto(40) }; (0..k).map(|_| any()).collect() };
        let hash: Vec<u8> = { let k = if any() { 32 } else { upto(40) }; (0..k).map(|_| any()).collect() };
        pubkey(&s).ok();
        let t = format!("$argon2d$v=19$m=8,t=1,p=1${}${}", b64(&salt), b64(&hash));
        ensures!(pubkey(&t).ok().map(|k| k.to_vec()) == if salt.len() == 32 && hash.len() == 32 { Some(salt) } else { None }, "the public key of a text is its 32 byte salt; anything else is refused");
    }
    native signatures, unwind 1, bias 0 {
        let k = key(); let h: Hash = any(); let s = sign_hash(&k, &h); let pk = k.pubkey_bytes();
        ensures!(validate_signature(&pk, &s, &h).is_ok(), "a signature verifies under its key and hash");
        let (mut h2, mut s2, mut p2) = (h, s, pk);
        match upto(2) { 0 => h2[upto(31)] ^= 1 << upto(7), 1 => s2[upto(63)] ^= 1 << upto(7), _ => p2[upto(31)] ^= 1 << upto(7) }
        ensures!(validate_signature(&p2, &s2, &h2).is_err(), "and under no other");
        ensures!(SigningKey::try_from(secret(&k)).ok().map(|k| k.pubkey_bytes()) == Some(pk), "a key is its secret");
    }
    native hashes, unwind 1, bias 0 {
        let n = upto(6);
        let segs: Vec<Vec<u8>> = (0..n).map(|_| { let k = if upto(5) == 0 { 1000 + upto(1100) } else { upto(40) }; let b: u8 = any(); let mut v = vec![b; k]; if k > 0 { v[upto(k - 1)] = any() } v }).collect();
        let r: Vec<&[u8]> = segs.iter().map(|v| &v[..]).collect();
        let h = hash_segments(&r);
        ensures!(h == *blake3_hash(&segs.concat()).as_bytes(), "hashing segments is hashing their concatenation");
        let a: [u8; 40] = any(); let i = upto(40); let j = upto(40 - i) + i;
        ensures!(hash_segments(&[&a[..i], &a[i..j], &a[j..]]) == hash_segments(&[&a]), "however the bytes are split");
    }
}
