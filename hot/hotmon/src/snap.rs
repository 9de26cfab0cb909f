//! Reads the repository's `Document` into specification-side trees.
use crate::tree::{Attr, Elem, Node, Ns};
use hotmeal::{Document, Namespace, NodeId, NodeKind};

pub fn attr(q: &hotmeal::QualName, v: &str) -> Attr {
    Attr {
        prefix: q.prefix.as_ref().map(|p| p.to_string()).unwrap_or_default(),
        ns: q.ns.to_string(),
        local: q.local.to_string(),
        value: v.to_string(),
    }
}
pub fn node(d: &Document, id: NodeId) -> Option<Node> {
    let n = d.get(id);
    Some(match &n.kind {
        NodeKind::Text(t) => Node::Text(t.as_ref().to_string()),
        NodeKind::Comment(t) => Node::Comment(t.as_ref().to_string()),
        NodeKind::Document => return None,
        NodeKind::Element(e) => Node::Elem(Elem {
            ns: match n.ns {
                Namespace::Html => Ns::Html,
                Namespace::Svg => Ns::Svg,
                Namespace::MathMl => Ns::Math,
            },
            tag: e.tag.to_string(),
            attrs: e.attrs.iter().map(|(k, v)| attr(k, v.as_ref())).collect(),
            children: d.children(id).filter_map(|c| node(d, c)).collect(),
        }),
    })
}
pub fn elem(d: &Document, id: NodeId) -> Option<Elem> {
    match node(d, id)? {
        Node::Elem(e) => Some(e),
        _ => None,
    }
}
pub fn body(d: &Document) -> Option<Elem> {
    elem(d, d.body()?)
}
/// Structural sanity of everything reachable from the root: child lists, parent links and sibling
/// links agree, and the walk ends.
pub fn well_formed(d: &Document) -> Result<usize, String> {
    let mut stack = vec![d.root];
    let mut seen = std::collections::HashSet::new();
    let cap = d.arena.count() + 1;
    while let Some(n) = stack.pop() {
        if !seen.insert(n) {
            return Err("a node is reachable twice".into());
        }
        let mut prev = None;
        let mut count = 0usize;
        for c in d.children(n) {
            count += 1;
            if count > cap {
                return Err("a child list does not end".into());
            }
            if d.parent(c) != Some(n) {
                return Err("a child's parent link does not point to its parent".into());
            }
            if d.prev_sibling(c) != prev {
                return Err("sibling links disagree".into());
            }
            prev = Some(c);
            stack.push(c);
        }
        if d.last_child(n) != prev || d.child_count(n) != count {
            return Err("last child or child count disagrees with the child list".into());
        }
    }
    Ok(seen.len())
}
