//! C01: colours.
use layout::core::color::Color;
use mc::css::NAMES;
use mc::engine::*;

fn want(s: &str, w: Option<u32>, c: &mut Ctx) -> Result<(), String> {
    c.transitions += 1;
    let n = Color::from_name(s).map(|x| x.to_web_color());
    let f = Color::fast(s).to_web_color();
    let hex = w.map(|x| format!("#{:08x}", x));
    if n != hex {
        return Err(format!("{:?} is {:?}, expected {:?}", s, n, hex));
    }
    let fast = hex.unwrap_or_else(|| "#000000ff".into());
    if f != fast {
        return Err(format!("{:?} is drawn as {}, expected {}", s, f, fast));
    }
    Ok(())
}

fn mixed_case(s: &str, mask: u64) -> String {
    s.chars().enumerate().map(|(i, c)| if mask & (1 << i) != 0 { c.to_ascii_uppercase() } else { c }).collect()
}

fn plan_(t: Tier) -> Plan {
    let mut f = vec![
        family("names", "every CSS colour name", NAMES.len() as u64, |i| NAMES[i as usize].0.to_string(), |i, c| {
            let (n, v) = NAMES[i as usize];
            c.state(i);
            want(n, Some((v << 8) | 0xff), c)
        }),
        family(
            "near-names",
            "every CSS colour name with one character removed, doubled or replaced by another letter, or with a letter in front",
            NAMES.len() as u64 * 24 * 4,
            |i| near(i).unwrap_or_default(),
            |i, c| {
                let s = match near(i) {
                    Some(s) => s,
                    None => {
                        c.skip("no such position");
                        return Ok(());
                    }
                };
                c.state(h(&s));
                let w = NAMES.iter().find(|x| x.0 == s.to_ascii_lowercase()).map(|x| (x.1 << 8) | 0xff);
                want(&s, w, c)
            },
        ),
        family("rgb", "every #rrggbb", 256, |i| format!("#{:02x}....", i), |i, c| {
            for x in (i << 16)..((i + 1) << 16) {
                let s = format!("#{:06x}", x);
                if x & 0xff == 0 {
                    c.state(x);
                }
                want(&s, Some(((x as u32) << 8) | 0xff), c)?;
            }
            Ok(())
        }),
        family("rgba", "every #rrggbbaa whose channels are all 0, 1, 127, 128, 254 or 255, and every pair of channels with the others 0 or 255", 1296 + 6 * 2 * 256, |i| format!("{}", i), |i, c| {
            if i < 1296 {
                let v = [0u32, 1, 127, 128, 254, 255];
                let d = digits(i, 6, 4);
                let x = (v[d[0]] << 24) | (v[d[1]] << 16) | (v[d[2]] << 8) | v[d[3]];
                c.state(x as u64);
                return want(&format!("#{:08x}", x), Some(x), c);
            }
            let d = mixed(i - 1296, &[256, 6, 2]);
            let (p, q) = [(0, 8), (0, 16), (0, 24), (8, 16), (8, 24), (16, 24)][d[1]];
            let base = if d[2] == 1 { u32::MAX } else { 0 };
            for k in 0..256u32 {
                let x = (base & !(255 << p) & !(255 << q)) | ((d[0] as u32) << p) | (k << q);
                c.state(x as u64);
                want(&format!("#{:08x}", x), Some(x), c)?;
            }
            Ok(())
        }),
        family("letter-case", "every mix of upper and lower case letters in #abcdef and #fedcbaaf", 64 + 256, |i| format!("{}", i), |i, c| {
            if i < 64 {
                want(&mixed_case("#abcdef", i << 1), Some(0xabcdefff), c)
            } else {
                want(&mixed_case("#fedcbaaf", (i - 64) << 1), Some(0xfedcbaaf), c)
            }
        }),
        family("not-colours", "every string of up to 5 characters of {r e d # g z blank} that is not a colour", seq_total(7, 0, 5), |i| text(i), |i, c| {
            let s = text(i);
            c.state(h(&s));
            let w = NAMES.iter().find(|x| x.0 == s.to_ascii_lowercase()).map(|x| (x.1 << 8) | 0xff);
            want(&s, w, c)
        }),
        family("name-case", "every CSS colour name with every letter in upper case, the first one, every second one, and each single one", NAMES.len() as u64 * 24, |i| case(i).unwrap_or_default(), |i, c| {
            let s = match case(i) {
                Some(s) => s,
                None => {
                    c.skip("no such position");
                    return Ok(());
                }
            };
            c.state(h(&s));
            want(&s, Some((NAMES[i as usize / 24].1 << 8) | 0xff), c)
        }),
        family("hex-forms", "every string of up to 10 characters of {# + - blank 0 f g x} with at most two different characters after a leading #, and every string of up to 4 of them", 9 * 8 * 8 * 512 + seq_total(8, 0, 4), |i| form(i), |i, c| {
            let s = form(i);
            c.state(h(&s));
            let v = s.strip_prefix('#').filter(|x| x.chars().all(|c| c.is_ascii_hexdigit())).and_then(|x| match x.len() {
                6 => Some((u32::from_str_radix(x, 16).unwrap() << 8) | 0xff),
                8 => Some(u32::from_str_radix(x, 16).unwrap()),
                _ => None,
            });
            want(&s, v, c)
        }),
        family("long-texts", "every name and #ffffff, with 1 to 300 characters of {f 0 blank # é} behind or in front", 5 * 2 * 300 * 12, |i| long(i), |i, c| {
            let s = long(i);
            c.state(h(&s));
            // #ffffff with ff or 00 behind is a colour of 8 digits
            let v = s.strip_prefix('#').filter(|x| x.len() == 8 && x.chars().all(|c| c.is_ascii_hexdigit())).map(|x| u32::from_str_radix(x, 16).unwrap());
            want(&s, v, c)
        }),
        family("web-form", "the web form of every value with two free bytes and the others 0 or 255", 6 * 2 * 256, |i| format!("{}", i), |i, c| {
            let d = mixed(i, &[256, 6, 2]);
            let (p, q) = [(0, 8), (0, 16), (0, 24), (8, 16), (8, 24), (16, 24)][d[1]];
            let base = if d[2] == 1 { u32::MAX } else { 0 };
            for k in 0..256u32 {
                let x = (base & !(255 << p) & !(255 << q)) | ((d[0] as u32) << p) | (k << q);
                c.transitions += 1;
                let s = Color::new(x).to_web_color();
                if s != format!("#{:08x}", x) {
                    return Err(format!("{:08x} is written {}", x, s));
                }
            }
            Ok(())
        }),
    ];
    if t == Tier::Thorough {
        f.push(family("rgba-all", "every #rrggbbaa", 1 << 16, |i| format!("#{:04x}....", i), |i, c| {
            for x in (i << 16)..((i + 1) << 16) {
                want(&format!("#{:08x}", x), Some(x as u32), c)?;
            }
            Ok(())
        }));
    }
    plan(
        f,
        "state = one colour specification (of the 2^24 #rrggbb values one in 256 is recorded); transition = one lookup, compared with an independent table of the CSS names and with the hexadecimal value",
        &[],
    )
}
fn near(i: u64) -> Option<String> {
    let d = mixed(i, &[24, 4, NAMES.len()]);
    let n = NAMES[d[2]].0;
    if d[0] >= n.len() {
        return None;
    }
    let mut s = n.to_string();
    match d[1] {
        0 => {
            s.remove(d[0]);
        }
        1 => s.insert(d[0], n.as_bytes()[d[0]] as char),
        2 => {
            let c = if n.as_bytes()[d[0]] == b'z' { b'a' } else { n.as_bytes()[d[0]] + 1 };
            s.replace_range(d[0]..d[0] + 1, &(c as char).to_string());
        }
        _ => s.insert(0, (b'a' + d[0] as u8) as char),
    }
    Some(s)
}
const FORM: [char; 8] = ['#', '+', '-', ' ', '0', 'f', 'g', 'x'];
fn form(i: u64) -> String {
    let n = 9 * 8 * 8 * 512;
    if i >= n {
        return seq(i - n, 8, 0, 4).into_iter().map(|x| FORM[x]).collect();
    }
    let d = mixed(i, &[9, 8, 8, 512]);
    let mut s = String::from("#");
    for k in 0..=d[0] {
        s.push(FORM[if d[3] & (1 << k) != 0 { d[1] } else { d[2] }]);
    }
    s
}
fn long(i: u64) -> String {
    let d = mixed(i, &[5, 2, 300, 12]);
    let n = if d[3] == 11 { "#ffffff" } else { NAMES[d[3] * 13].0 };
    let t = ['f', '0', ' ', '#', 'é'][d[0]].to_string().repeat(d[2] + 1);
    if d[1] == 0 {
        format!("{}{}", n, t)
    } else {
        format!("{}{}", t, n)
    }
}
fn case(i: u64) -> Option<String> {
    let n = NAMES[i as usize / 24].0;
    let k = i as usize % 24;
    match k {
        0 => Some(n.to_ascii_uppercase()),
        1 => Some(mixed_case(n, 0x55555555)),
        _ if k - 2 < n.len() => Some(mixed_case(n, 1 << (k - 2))),
        _ => None,
    }
}
fn text(i: u64) -> String {
    seq(i, 7, 0, 5).into_iter().map(|x| ['r', 'e', 'd', '#', 'g', 'z', ' '][x]).collect()
}
fn main() {
    mc::engine::main("C01", plan_)
}
