//! Runs the vectorised routines under an undefined-behaviour detector (Miri, AddressSanitizer).
//! Exit 0: nothing found; 101: a wrong result.
#![allow(dead_code, unused)]
#[path = "/repo/src/simd/mod.rs"]
mod simd;

struct Rng(u64);
impl Rng {
    fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut x = self.0;
        x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        x = (x ^ (x >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        x ^ (x >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.u64() % n.max(1) as u64) as usize
    }
}

thread_local!(static QUIET: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });

fn main() {
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            hook(i)
        }
    }));
    let n: usize = std::env::var("UB_N").ok().and_then(|s| s.parse().ok()).unwrap_or(200);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if !std::is_x86_feature_detected!("avx2") {
        println!("UB-SKIP no AVX2");
        return;
    }
    let mut r = Rng(seed);
    let mut calls = 0;
    for k in 0..n {
        let len = match k % 4 {
            0 => k % 100,
            1 => 32 * r.below(4),
            2 => 32 * r.below(4) + r.below(3),
            _ => r.below(140),
        };
        let few = r.below(2) == 0;
        // exact allocations: reads past them are seen
        let v: Box<[u8]> = (0..len).map(|_| if few { b" \"\\a\n"[r.below(5)] } else { r.u64() as u8 }).collect();
        let text: Box<[u8]> = (0..len).map(|i| ["a", "é", "世", "🦀"][(i + k) % 4]).collect::<String>().into_bytes().into();
        unsafe {
            assert_eq!(simd::json::find_whitespace_simd(&v), (0..len).filter(|&i| b" \t\n\r".contains(&v[i])).collect::<Vec<_>>());
            assert_eq!(simd::json::find_escapes_simd(&v), (0..len).filter(|&i| b"\\\"".contains(&v[i])).collect::<Vec<_>>());
            assert_eq!(simd::json::validate_utf8_simd(&v), std::str::from_utf8(&v).is_ok());
            assert!(simd::json::validate_utf8_simd(&text));
            if !text.is_empty() {
                let cut = &text[..r.below(text.len())];
                assert_eq!(simd::json::validate_utf8_simd(cut), std::str::from_utf8(cut).is_ok());
            }
            let mut dst: Box<[u8]> = vec![7; len + k % 3].into();
            simd::serialization::copy_simd(&v, &mut dst);
            assert_eq!(&dst[..len], &v[..]);
            // a destination that is too short is refused (this crate builds without debug assertions): never written past
            if len > 0 {
                let mut short: Box<[u8]> = vec![7; r.below(len)].into();
                let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    QUIET.with(|q| q.set(true));
                    simd::serialization::copy_simd(&v, &mut short)
                }));
                QUIET.with(|q| q.set(false));
                drop(refused);
            }
            let mut out = Vec::new();
            simd::serialization::base64_encode_simd(&v, &mut out);
            assert_eq!(out.len(), len.div_ceil(3) * 4);
            let mut out = Vec::new();
            simd::compression::rle_encode_simd(&v, &mut out);
            assert_eq!(out.chunks(2).map(|c| c[0] as usize).sum::<usize>(), len);
            let mut d = v.clone();
            simd::serialization::xor_mask_simd(&mut d, [1, 2, 3, 255]);
            simd::serialization::xor_mask_simd(&mut d, [1, 2, 3, 255]);
            assert_eq!(d, v);
            if len > 0 {
                let s = r.below(len);
                let needle: Box<[u8]> = v[s..(s + 1 + r.below(20)).min(len)].into();
                assert_eq!(simd::compression::find_pattern_simd(&v, &needle), (0..len).find(|&p| v[p..].starts_with(&needle)));
            }
            let ls: Box<[u32]> = (0..len / 4).map(|_| r.u64() as u32).collect();
            assert_eq!(simd::batch::batch_validate_lengths(&ls, 0x9000_0000), ls.iter().map(|&l| l <= 0x9000_0000).collect::<Vec<_>>());
            assert_eq!(simd::batch::batch_checksum_simd(&[&v, &text]), [v.iter().map(|&b| b as u32).sum::<u32>(), text.iter().map(|&b| b as u32).sum::<u32>()]);
        }
        calls += 12;
    }
    println!("UB-CALLS {calls}");
}
