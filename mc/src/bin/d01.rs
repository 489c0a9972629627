//! D01: the scoped map against a stack of dictionaries.
use layout::adt::map::ScopedMap;
use mc::engine::*;
use std::collections::BTreeMap;

const K: u8 = 3;

#[derive(Clone, Copy, Debug)]
enum Op {
    Push,
    Pop,
    /// Inserts a value never used before.
    Insert(u8),
}
fn decode(idx: u64, base: usize, len: usize) -> Vec<Op> {
    let mut r = vec![Op::Push];
    r.extend(digits(idx, base, len).into_iter().map(|x| match x {
        0 => Op::Push,
        1 => Op::Pop,
        k => Op::Insert(k as u8 - 2),
    }));
    r
}

fn compare(m: &ScopedMap<String, u8>, model: &[BTreeMap<u8, u8>]) -> Result<(), String> {
    if m.len() != model.len() || m.is_empty() != model.is_empty() {
        return Err(format!("depth {} (is_empty {}), expected {}", m.len(), m.is_empty(), model.len()));
    }
    let flat = m.flatten();
    let mut want = BTreeMap::new();
    for s in model {
        for (k, v) in s {
            want.insert(*k, *v);
        }
    }
    if flat.len() != want.len() {
        return Err(format!("flattened to {:?}, expected {:?}", flat, want));
    }
    for k in 0..=K {
        let key = format!("k{}", k);
        let w = want.get(&k).copied();
        if m.get(&key) != w || m.has(&key) != w.is_some() || flat.get(&key).copied() != w {
            return Err(format!("key {}: get {:?} has {} flatten {:?}, expected {:?}", key, m.get(&key), m.has(&key), flat.get(&key), w));
        }
    }
    Ok(())
}

fn run(ops: &[Op], ctx: &mut Ctx) -> Result<(), String> {
    let mut m: ScopedMap<String, u8> = ScopedMap::new();
    let mut model: Vec<BTreeMap<u8, u8>> = Vec::new();
    for (i, op) in ops.iter().enumerate() {
        match op {
            Op::Push => {
                m.push();
                model.push(BTreeMap::new());
            }
            Op::Pop => {
                if model.is_empty() {
                    // Leaving more scopes than were entered is a misuse.
                    ctx.note("stopped at a pop without a scope (misuse)", 1);
                    return Ok(());
                }
                m.pop();
                model.pop();
            }
            Op::Insert(k) => {
                if model.is_empty() {
                    ctx.note("stopped at an insert without a scope (misuse)", 1);
                    return Ok(());
                }
                m.insert(&format!("k{}", k), &(i as u8));
                model.last_mut().unwrap().insert(*k, i as u8);
            }
        }
        ctx.transitions += 1;
        ctx.state(h(&model));
        compare(&m, &model).map_err(|e| format!("after step {} {:?}: {}", i + 1, op, e))?;
    }
    ctx.outcome(h(&model));
    Ok(())
}

/// Scopes with many keys, and many scopes. Keys are numbers, some of them long.
fn large(i: u64, ctx: &mut Ctx) -> Result<(), String> {
    let (keys, scopes, way) = shape(i);
    let name = |k: usize| if k % 3 == 0 { format!("k{}", k) } else { format!("{}{}", "key".repeat(k % 20), k) };
    let mut m: ScopedMap<String, u32> = ScopedMap::new();
    let mut model: Vec<BTreeMap<usize, u32>> = Vec::new();
    let mut value = 0;
    let check = |m: &ScopedMap<String, u32>, model: &[BTreeMap<usize, u32>], ctx: &mut Ctx| -> Result<(), String> {
        ctx.transitions += 1;
        ctx.state(h(&model));
        if m.len() != model.len() || m.is_empty() != model.is_empty() {
            return Err(format!("depth {} (is_empty {}), expected {}", m.len(), m.is_empty(), model.len()));
        }
        let flat = m.flatten();
        let mut want = BTreeMap::new();
        for s in model {
            want.extend(s.iter().map(|(k, v)| (*k, *v)));
        }
        if flat.len() != want.len() {
            return Err(format!("flattened to {} keys, expected {}", flat.len(), want.len()));
        }
        for k in 0..=keys {
            let w = want.get(&k).copied();
            let n = name(k);
            if m.get(&n) != w || m.has(&n) != w.is_some() || flat.get(&n).copied() != w {
                return Err(format!("{} of {} keys, {} scopes: get {:?} has {} flatten {:?}, expected {:?}", n, keys, model.len(), m.get(&n), m.has(&n), flat.get(&n), w));
            }
        }
        Ok(())
    };
    for s in 0..scopes {
        m.push();
        model.push(BTreeMap::new());
        for k in 0..keys {
            let on = match way {
                0 => true,
                1 => k % scopes == s,
                2 => s == 0 || k == s % keys,
                3 => s + 1 == scopes || k % 2 == s % 2,
                _ => (k + s) % 3 == 0,
            };
            for _ in 0..on as usize * (1 + (way == 4) as usize) {
                value += 1;
                m.insert(&name(k), &value);
                model.last_mut().unwrap().insert(k, value);
            }
        }
        check(&m, &model, ctx)?;
    }
    while !model.is_empty() {
        m.pop();
        model.pop();
        check(&m, &model, ctx)?;
    }
    Ok(())
}
const MANY: [usize; 24] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 50, 64, 65, 100];
/// Keys, scopes, and which scope has which keys.
fn shape(i: u64) -> (usize, usize, usize) {
    let d = mixed(i, &[MANY.len() + 3, MANY.len() + 3, 5]);
    let z = |x: usize| MANY.get(x).copied().unwrap_or([0, 128, 256, 300][(x + 1).saturating_sub(MANY.len())]);
    let (a, b) = (z(d[0]), z(d[1]));
    // Only one of them is very large.
    if a > 24 && b > 24 {
        return (a, 3, d[2]);
    }
    (a, b, d[2])
}

fn plan_(t: Tier) -> Plan {
    let fam = |name: &str, keys: usize, len: usize| {
        let base = keys + 2;
        family(
            name,
            &format!("a push, then every sequence of {} operations over push, pop and the insertion of a new value under one of {} keys (every prefix is compared)", len, keys),
            (base as u64).pow(len as u32),
            move |i| format!("{:?}", decode(i, base, len)),
            move |i, c| run(&decode(i, base, len), c),
        )
    };
    plan(
        vec![fam("three-keys", 3, t.pick(9, 11)), fam("two-keys", 2, t.pick(10, 12)), fam("one-key", 1, t.pick(12, 15)),
            family(
                "large",
                "1 to 300 keys in each of 1 to 300 scopes (one of the two at most 24), by 5 patterns of which scope inserts which keys, compared after every scope is filled and after every pop",
                ((MANY.len() + 3) * (MANY.len() + 3) * 5) as u64,
                |i| format!("keys, scopes, pattern {:?}", shape(i)),
                large,
            ),
        ],
        "state = contents of every scope of the reference stack of dictionaries; transition = one operation, after which depth, get, has and flatten of the real map are compared for every key (and one key never inserted)",
        &["insert and pop are only called with a scope open; sequences stop there"],
    )
}
fn main() {
    mc::engine::main("D01", plan_)
}
