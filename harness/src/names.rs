//! Names of opaque values: equal values get equal names, different values different names.

use std::cell::RefCell;
use std::collections::{HashMap, HashSet};

use commit_verify::{Digest, Sha256};

#[derive(Default)]
pub struct Names {
    map: HashMap<(char, Vec<u8>), String>,
    used: HashSet<String>,
}

thread_local! { static NAMES: RefCell<Names> = RefCell::default(); }

/// Name of a value of a given kind.
pub fn name(kind: char, bytes: &[u8]) -> String { hint(kind, bytes, "") }

/// Name of a value of a given kind, with a wish.
pub fn hint(kind: char, bytes: &[u8], wish: &str) -> String {
    NAMES.with_borrow_mut(|n| {
        if let Some(s) = n.map.get(&(kind, bytes.to_vec())) {
            return s.clone();
        }
        // The same in every process: depends on nothing but the value (and the wishes made before)
        let mut s = format!("{kind}.{wish}");
        let mut no = 0u8;
        while wish.is_empty() && no == 0 || n.used.contains(&s) {
            let mut e = Sha256::new();
            e.update([no]);
            e.update(bytes);
            let h: [u8; 32] = e.finalize().into();
            s = format!("{kind}.{wish}#{:02x}{:02x}{:02x}{:02x}{:02x}", h[0], h[1], h[2], h[3], h[4]);
            no += 1;
        }
        n.used.insert(s.clone());
        n.map.insert((kind, bytes.to_vec()), s.clone());
        s
    })
}
