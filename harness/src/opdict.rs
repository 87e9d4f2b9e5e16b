//! The spacing columns of the operator dictionary of MathML Core (appendix B of the specification),
//! in mu. A character that is not listed has relation spacing in every form.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Prefix,
    Infix,
    Postfix,
}
type Ranges = &'static [(u32, u32)];
/// Infix with 4mu on both sides.
const B: Ranges = &[(0x2B, 0x2B), (0x2D, 0x2D), (0xB1, 0xB1), (0xF7, 0xF7), (0x322, 0x322), (0x2044, 0x2044), (0x2212, 0x2216), (0x2227, 0x222A), (0x2236, 0x2236), (0x2238, 0x2238), (0x228C, 0x228E), (0x2293, 0x2296), (0x2298, 0x2298), (0x229D, 0x229F), (0x22BB, 0x22BD), (0x22CE, 0x22CF), (0x22D2, 0x22D3), (0x2795, 0x2797), (0x29B8, 0x29B8), (0x29BC, 0x29BC), (0x29C4, 0x29C5), (0x29F5, 0x29FB), (0x2A1F, 0x2A2E), (0x2A38, 0x2A3A), (0x2A3E, 0x2A3E), (0x2A40, 0x2A4F), (0x2A51, 0x2A63), (0x2ADB, 0x2ADB), (0x2AF6, 0x2AF6), (0x2AFB, 0x2AFB), (0x2AFD, 0x2AFD)];
/// Infix with 3mu on both sides.
const C: Ranges = &[(0x25, 0x25), (0x2A, 0x2A), (0x2E, 0x2E), (0x3F, 0x40), (0x5E, 0x5E), (0xB7, 0xB7), (0xD7, 0xD7), (0x323, 0x323), (0x32E, 0x32E), (0x2022, 0x2022), (0x2043, 0x2043), (0x2217, 0x2219), (0x2240, 0x2240), (0x2297, 0x2297), (0x2299, 0x229B), (0x22A0, 0x22A1), (0x22BA, 0x22BA), (0x22C4, 0x22C7), (0x22C9, 0x22CC), (0x2305, 0x2306), (0x27CB, 0x27CB), (0x27CD, 0x27CD), (0x29C6, 0x29C8), (0x29D4, 0x29D7), (0x29E2, 0x29E2), (0x2A1D, 0x2A1E), (0x2A2F, 0x2A37), (0x2A3B, 0x2A3D), (0x2A3F, 0x2A3F), (0x2A50, 0x2A50), (0x2A64, 0x2A65), (0x2ADC, 0x2ADD), (0x2AFE, 0x2AFE)];
/// Prefix without space.
const D: Ranges = &[(0x21, 0x21), (0x2B, 0x2B), (0x2D, 0x2D), (0xAC, 0xAC), (0xB1, 0xB1), (0x331, 0x331), (0x2018, 0x2018), (0x201C, 0x201C), (0x2200, 0x2201), (0x2203, 0x2204), (0x2207, 0x2207), (0x2212, 0x2213), (0x221F, 0x2222), (0x2234, 0x2235), (0x223C, 0x223C), (0x22BE, 0x22BF), (0x2310, 0x2310), (0x2319, 0x2319), (0x2795, 0x2796), (0x27C0, 0x27C0), (0x299B, 0x29AF), (0x2AEC, 0x2AED)];
/// Postfix without space.
const E: Ranges = &[(0x21, 0x22), (0x25, 0x27), (0x60, 0x60), (0xA8, 0xA8), (0xB0, 0xB0), (0xB2, 0xB4), (0xB8, 0xB9), (0x2CA, 0x2CB), (0x2D8, 0x2DA), (0x2DD, 0x2DD), (0x311, 0x311), (0x320, 0x320), (0x325, 0x325), (0x327, 0x327), (0x32D, 0x32D), (0x332, 0x332), (0x2019, 0x201B), (0x201D, 0x201F), (0x2032, 0x2037), (0x2057, 0x2057), (0x20DB, 0x20DC), (0x23CD, 0x23CD)];
/// Prefix fences without space.
const F: Ranges = &[(0x28, 0x28), (0x5B, 0x5B), (0x7B, 0x7C), (0x2016, 0x2016), (0x2308, 0x2308), (0x230A, 0x230A), (0x2329, 0x2329), (0x2772, 0x2772), (0x27E6, 0x27E6), (0x27E8, 0x27E8), (0x27EA, 0x27EA), (0x27EC, 0x27EC), (0x27EE, 0x27EE), (0x2980, 0x2980), (0x2983, 0x2983), (0x2985, 0x2985), (0x2987, 0x2987), (0x2989, 0x2989), (0x298B, 0x298B), (0x298D, 0x298D), (0x298F, 0x298F), (0x2991, 0x2991), (0x2993, 0x2993), (0x2995, 0x2995), (0x2997, 0x2997), (0x2999, 0x2999), (0x29D8, 0x29D8), (0x29DA, 0x29DA), (0x29FC, 0x29FC)];
/// Postfix fences without space.
const G: Ranges = &[(0x29, 0x29), (0x5D, 0x5D), (0x7C, 0x7D), (0x2016, 0x2016), (0x2309, 0x2309), (0x230B, 0x230B), (0x232A, 0x232A), (0x2773, 0x2773), (0x27E7, 0x27E7), (0x27E9, 0x27E9), (0x27EB, 0x27EB), (0x27ED, 0x27ED), (0x27EF, 0x27EF), (0x2980, 0x2980), (0x2984, 0x2984), (0x2986, 0x2986), (0x2988, 0x2988), (0x298A, 0x298A), (0x298C, 0x298C), (0x298E, 0x298E), (0x2990, 0x2990), (0x2992, 0x2992), (0x2994, 0x2994), (0x2996, 0x2996), (0x2998, 0x2999), (0x29D9, 0x29D9), (0x29DB, 0x29DB), (0x29FD, 0x29FD)];
/// Prefix large operators (with and without movable limits): 3mu.
const HJ: Ranges = &[(0x220F, 0x2211), (0x222B, 0x2233), (0x22C0, 0x22C3), (0x2A00, 0x2A1C), (0x2AFC, 0x2AFC), (0x2AFF, 0x2AFF)];
/// Postfix accents that stretch: no space.
const I: Ranges = &[(0x5E, 0x5F), (0x7E, 0x7E), (0xAF, 0xAF), (0x2C6, 0x2C7), (0x2C9, 0x2C9), (0x2CD, 0x2CD), (0x2DC, 0x2DC), (0x2F7, 0x2F7), (0x302, 0x302), (0x203E, 0x203E), (0x2322, 0x2323), (0x23B4, 0x23B5), (0x23DC, 0x23E1)];
/// Infix without space.
const K: Ranges = &[(0x2F, 0x2F), (0x5C, 0x5C), (0x5F, 0x5F), (0x2061, 0x2064), (0x2206, 0x2206)];
/// Prefix: 3mu, 0.
const L: Ranges = &[(0x2145, 0x2146), (0x2202, 0x2202), (0x221A, 0x221C)];
/// Infix: 0, 3mu.
const M: Ranges = &[(0x2C, 0x2C), (0x3A, 0x3B)];

fn has(r: Ranges, c: u32) -> bool {
    r.iter().any(|&(a, b)| (a..=b).contains(&c))
}
fn entry(c: u32, form: Form) -> Option<(i32, i32)> {
    match form {
        // The vertical bars have relation spacing between two operands.
        Form::Infix if matches!(c, 0x7C | 0x2016) => Some((5, 5)),
        // The tilde operator as well.
        Form::Infix if c == 0x223C => Some((5, 5)),
        Form::Infix if has(B, c) => Some((4, 4)),
        Form::Infix if has(C, c) => Some((3, 3)),
        Form::Infix if has(K, c) => Some((0, 0)),
        Form::Infix if has(M, c) => Some((0, 3)),
        Form::Prefix if has(D, c) || has(F, c) => Some((0, 0)),
        Form::Prefix if has(HJ, c) => Some((3, 3)),
        Form::Prefix if has(L, c) => Some((3, 0)),
        Form::Postfix if has(E, c) || has(G, c) || has(I, c) => Some((0, 0)),
        _ => None,
    }
}
/// lspace and rspace.
pub fn spacing(op: &str, form: Form) -> (i32, i32) {
    let mut it = op.chars();
    let (Some(c), second) = (it.next(), it.next()) else { return (5, 5) };
    match second {
        None | Some('\u{338}' | '\u{20D2}') if it.next().is_none() => {}
        _ => return (5, 5),
    }
    let c = c as u32;
    [form, Form::Infix, Form::Postfix, Form::Prefix].into_iter().find_map(|f| entry(c, f)).unwrap_or((5, 5))
}
