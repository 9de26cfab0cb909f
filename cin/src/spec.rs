//! Independent specification trees: plain nested values and a flat preorder table computed from
//! them without any code of the system under test. All oracles work on these.

use std::fmt;

/// kinds < 100: elements without text; 100..=199: nodes with text and children;
/// >= 200: text leaves.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Kind(pub u8);

impl Kind {
    pub fn has_text(self) -> bool {
        self.0 >= 100
    }
    pub fn leaf_only(self) -> bool {
        self.0 >= 200
    }
}
impl fmt::Display for Kind {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "k{}", self.0)
    }
}
impl fmt::Debug for Kind {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "k{}", self.0)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct SNode {
    pub kind: Kind,
    pub text: Option<u32>,
    pub props: Vec<(u8, u16)>,
    pub opaque: bool,
    pub children: Vec<SNode>,
}

impl SNode {
    pub fn el(kind: u8, children: Vec<SNode>) -> SNode {
        SNode { kind: Kind(kind), text: None, props: vec![], opaque: false, children }
    }
    pub fn txt(kind: u8, t: u32) -> SNode {
        SNode { kind: Kind(kind), text: Some(t), props: vec![], opaque: false, children: vec![] }
    }
    pub fn size(&self) -> usize {
        // iterative: chains may be thousands deep
        let mut n = 0;
        let mut st = vec![self];
        while let Some(x) = st.pop() {
            n += 1;
            st.extend(x.children.iter());
        }
        n
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        enum W<'a> {
            N(&'a SNode),
            S(&'static str),
        }
        let mut st = vec![W::N(self)];
        while let Some(w) = st.pop() {
            match w {
                W::S(x) => s.push_str(x),
                W::N(n) => {
                    s.push_str(&format!("k{}", n.kind.0));
                    if let Some(t) = n.text {
                        s.push_str(&format!("'{t}"));
                    }
                    if !n.props.is_empty() {
                        s.push('{');
                        for (i, (k, v)) in n.props.iter().enumerate() {
                            if i > 0 {
                                s.push(';');
                            }
                            s.push_str(&format!("{k}={v}"));
                        }
                        s.push('}');
                    }
                    if n.opaque {
                        s.push('!');
                    }
                    if !n.children.is_empty() {
                        s.push('[');
                        st.push(W::S("]"));
                        for (i, c) in n.children.iter().enumerate().rev() {
                            st.push(W::N(c));
                            if i > 0 {
                                st.push(W::S(" "));
                            }
                        }
                    }
                }
            }
        }
        s
    }
    pub fn parse(s: &str) -> SNode {
        let b = s.as_bytes();
        let mut i = 0;
        fn num(b: &[u8], i: &mut usize) -> u64 {
            let st = *i;
            while *i < b.len() && b[*i].is_ascii_digit() {
                *i += 1;
            }
            std::str::from_utf8(&b[st..*i]).unwrap().parse().unwrap()
        }
        fn head(b: &[u8], i: &mut usize) -> SNode {
            assert_eq!(b[*i], b'k');
            *i += 1;
            let kind = Kind(num(b, i) as u8);
            let mut n = SNode { kind, text: None, props: vec![], opaque: false, children: vec![] };
            if *i < b.len() && b[*i] == b'\'' {
                *i += 1;
                n.text = Some(num(b, i) as u32);
            }
            if *i < b.len() && b[*i] == b'{' {
                *i += 1;
                loop {
                    let k = num(b, i);
                    assert_eq!(b[*i], b'=');
                    *i += 1;
                    let v = num(b, i);
                    n.props.push((k as u8, v as u16));
                    let c = b[*i];
                    *i += 1;
                    if c == b'}' {
                        break;
                    }
                }
            }
            if *i < b.len() && b[*i] == b'!' {
                *i += 1;
                n.opaque = true;
            }
            n
        }
        let mut stack: Vec<SNode> = vec![];
        let mut cur = head(b, &mut i);
        loop {
            if i < b.len() && b[i] == b'[' {
                i += 1;
                stack.push(cur);
                cur = head(b, &mut i);
                continue;
            }
            // cur complete
            loop {
                if stack.is_empty() {
                    return cur;
                }
                stack.last_mut().unwrap().children.push(cur);
                match b[i] {
                    b' ' => {
                        i += 1;
                        cur = head(b, &mut i);
                        break;
                    }
                    b']' => {
                        i += 1;
                        cur = stack.pop().unwrap();
                    }
                    c => panic!("bad tree syntax at {i}: {}", c as char),
                }
            }
        }
    }
}

// Deep chains must not overflow the stack when dropped.
impl Drop for SNode {
    fn drop(&mut self) {
        let mut st: Vec<SNode> = std::mem::take(&mut self.children);
        while let Some(mut n) = st.pop() {
            st.append(&mut n.children);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum HashMode {
    /// Merkle hash over kind, text, children (hotmeal's convention: properties excluded)
    NoProps,
    /// Merkle hash over kind, text, properties, children
    WithProps,
    /// Truncated Merkle hash: collisions on purpose (contract-violating caller)
    Collide(u32),
}

#[derive(Clone, Debug)]
pub struct FNode {
    pub parent: Option<usize>,
    pub pos: usize,
    pub depth: usize,
    pub height: usize,
    pub size: usize, // subtree size, node included; subtree of i = i..i+size
    pub children: Vec<usize>,
    pub kind: Kind,
    pub text: Option<String>,
    pub text_raw: Option<u32>,
    pub props: Vec<(u8, u16)>,
    pub opaque: bool,
    pub inside_opaque: bool, // strictly inside an opaque node
    pub hash: u64,
    /// Merkle hash of everything (kind, text, props, opaque flag, children): value equality
    pub full: u64,
}

#[derive(Clone, Debug)]
pub struct Flat {
    pub n: Vec<FNode>,
}

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^= z >> 32;
    z.wrapping_add(0x1234_5678_9ABC_DEF1)
}

impl Flat {
    pub fn of(root: &SNode, mode: HashMode) -> Flat {
        let mut n: Vec<FNode> = Vec::new();
        let mut st: Vec<(&SNode, Option<usize>, usize, usize, bool)> = vec![(root, None, 0, 0, false)];
        while let Some((s, parent, pos, depth, ins)) = st.pop() {
            let i = n.len();
            n.push(FNode {
                parent,
                pos,
                depth,
                height: 0,
                size: 1,
                children: vec![],
                kind: s.kind,
                text: s.text.map(|t| format!("t{t}")),
                text_raw: s.text,
                props: s.props.clone(),
                opaque: s.opaque,
                inside_opaque: ins,
                hash: 0,
                full: 0,
            });
            if let Some(p) = parent {
                n[p].children.push(i);
            }
            for (k, c) in s.children.iter().enumerate().rev() {
                st.push((c, Some(i), k, depth + 1, ins || s.opaque));
            }
        }
        for i in (0..n.len()).rev() {
            let ch = std::mem::take(&mut n[i].children);
            let mut h = mix(0x51, n[i].kind.0 as u64);
            h = mix(h, n[i].text_raw.map_or(7, |t| t as u64 + 1000));
            let mut f = mix(h, n[i].opaque as u64 + 3);
            // properties form a map: order-insensitive
            let mut sorted = n[i].props.clone();
            sorted.sort();
            for &(k, v) in &sorted {
                f = mix(mix(f, k as u64 + 1), v as u64 + 1);
                if mode == HashMode::WithProps {
                    h = mix(mix(h, k as u64 + 1), v as u64 + 1);
                }
            }
            let (mut height, mut size) = (0, 1);
            for &c in &ch {
                h = mix(h, n[c].hash);
                f = mix(f, n[c].full);
                height = height.max(n[c].height + 1);
                size += n[c].size;
            }
            h = mix(h, ch.len() as u64);
            f = mix(f, ch.len() as u64);
            n[i].hash = h;
            n[i].full = f;
            n[i].height = height;
            n[i].size = size;
            n[i].children = ch;
        }
        if let HashMode::Collide(bits) = mode {
            for x in n.iter_mut() {
                x.hash &= (1u64 << bits) - 1;
            }
        }
        Flat { n }
    }
    pub fn len(&self) -> usize {
        self.n.len()
    }
    /// x is d or a strict descendant of d
    pub fn within(&self, x: usize, d: usize) -> bool {
        x >= d && x < d + self.n[d].size
    }
    pub fn postorder(&self) -> Vec<usize> {
        let mut out = Vec::with_capacity(self.len());
        let mut st = vec![(0usize, 0usize)];
        while let Some((i, k)) = st.pop() {
            if k < self.n[i].children.len() {
                st.push((i, k + 1));
                st.push((self.n[i].children[k], 0));
            } else {
                out.push(i);
            }
        }
        out
    }
    pub fn bfs(&self) -> Vec<usize> {
        let mut out = vec![0];
        let mut i = 0;
        while i < out.len() {
            let c = self.n[out[i]].children.clone();
            out.extend(c);
            i += 1;
        }
        out
    }
}

pub fn props_map_eq(a: &[(u8, u16)], b: &[(u8, u16)]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut x = a.to_vec();
    let mut y = b.to_vec();
    x.sort();
    y.sort();
    x == y
}

/// Property similarity used by the harness's Properties implementation:
/// |shared key=value| / |union of keys|, 1.0 when both are empty.
pub fn prop_similarity(a: &[(u8, u16)], b: &[(u8, u16)]) -> f64 {
    if a.is_empty() && b.is_empty() {
        return 1.0;
    }
    let mut union = a.len();
    let mut same = 0;
    for (k, v) in b {
        match a.iter().find(|(ka, _)| ka == k) {
            None => union += 1,
            Some((_, va)) => {
                if va == v {
                    same += 1
                }
            }
        }
    }
    same as f64 / union as f64
}
