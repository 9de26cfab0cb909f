//! Offline stand-in for `html5ever`: a WHATWG HTML tokenizer and tree builder driving a `TreeSink`
//! through the same interface (names, sink calls, options) that the real crate has.
mod atoms;
mod entities;
pub mod interface;
pub mod tokenizer;
pub mod tree_builder;

pub use atoms::{Attribute, ExpandedName, LocalName, Namespace, Prefix, QualName};
pub use tendril;
pub use tree_builder::{ParseOpts, Parser, parse_document, parse_fragment, parse_fragment_for_element};

pub mod driver {
    pub use crate::tree_builder::{ParseOpts, Parser, parse_document, parse_fragment};
}

static NAMES: &[&str] = &[
    "", "a", "abbr", "accept", "accept-charset", "accesskey", "acronym", "action", "actuate", "address", "align",
    "alink", "allow", "allowfullscreen", "alt", "animate", "animateMotion", "animateTransform", "annotation",
    "annotation-xml", "applet", "arcrole", "area", "article", "as", "aside", "async", "audio", "autocapitalize",
    "autocomplete", "autofocus", "autoplay", "b", "background", "base", "basefont", "bdi", "bdo", "bgcolor",
    "bgsound", "big", "blink", "blockquote", "body", "border", "br", "button", "canvas", "caption", "cellpadding",
    "cellspacing", "center", "charset", "checked", "circle", "cite", "class", "clear", "clipPath", "code", "col",
    "colgroup", "color", "cols", "colspan", "command", "compact", "content", "contenteditable", "controls", "coords",
    "crossorigin", "cx", "cy", "d", "data", "data-a", "data-b", "data-hotmeal-opaque", "data-id", "data-x",
    "datalist", "datetime", "dd", "decoding", "default", "defer", "definitionURL", "definitionurl", "defs", "del",
    "desc", "details", "dfn", "dialog", "dir", "dirname", "disabled", "div", "dl", "download", "draggable", "dt",
    "element", "ellipse", "em", "embed", "encoding", "enctype", "enterkeyhint", "face", "feBlend", "feColorMatrix",
    "feComponentTransfer", "feComposite", "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap",
    "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB", "feFuncG", "feFuncR", "feGaussianBlur",
    "feImage", "feMerge", "feMergeNode", "feMorphology", "feOffset", "fePointLight", "feSpecularLighting",
    "feSpotLight", "feTile", "feTurbulence", "fencedframe", "fieldset", "figcaption", "figure", "fill", "filter",
    "font", "footer", "for", "foreignObject", "form", "formaction", "formenctype", "formmethod", "formnovalidate",
    "formtarget", "frame", "frames", "frameset", "fx", "fy", "g", "glyphRef", "gradientTransform", "gradientUnits",
    "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "headers", "height", "hgroup", "hidden", "high", "hr",
    "href", "hreflang", "html", "http-equiv", "http://www.w3.org/1998/Math/MathML", "http://www.w3.org/1999/xhtml",
    "http://www.w3.org/1999/xlink", "http://www.w3.org/2000/svg", "http://www.w3.org/2000/xmlns/",
    "http://www.w3.org/XML/1998/namespace", "i", "id", "iframe", "image", "imagesizes", "imagesrcset", "img", "inert",
    "input", "inputmode", "ins", "integrity", "is", "isindex", "ismap", "itemid", "itemprop", "itemref", "itemscope",
    "itemtype", "kbd", "keygen", "kind", "label", "lang", "language", "legend", "li", "line", "linearGradient",
    "link", "list", "listing", "loading", "longdesc", "loop", "low", "maction", "main", "malignmark", "map", "mark",
    "marker", "marquee", "mask", "math", "max", "maxlength", "media", "menclose", "menu", "menuitem", "merror",
    "meta", "metadata", "meter", "method", "mfenced", "mfrac", "mglyph", "mi", "min", "minlength", "mmultiscripts",
    "mn", "mo", "mover", "mpadded", "mphantom", "mroot", "mrow", "ms", "mspace", "msqrt", "mstyle", "msub", "msubsup",
    "msup", "mtable", "mtd", "mtext", "mtr", "multicol", "multiple", "munder", "munderover", "muted", "name", "nav",
    "nextid", "nobr", "noembed", "noframes", "nomodule", "nonce", "noscript", "noshade", "novalidate", "nowrap",
    "object", "ol", "onblur", "onchange", "onclick", "onerror", "onfocus", "oninput", "onkeydown", "onload",
    "onmouseover", "onsubmit", "open", "optgroup", "optimum", "option", "output", "p", "param", "path", "pattern",
    "picture", "ping", "placeholder", "plaintext", "playsinline", "points", "polygon", "polyline", "popover",
    "portal", "poster", "pre", "preload", "preserveAspectRatio", "profile", "progress", "q", "r", "radialGradient",
    "rb", "readonly", "rect", "referrerpolicy", "rel", "required", "reversed", "role", "rows", "rowspan", "rp", "rt",
    "rtc", "ruby", "rx", "ry", "s", "samp", "sandbox", "scope", "script", "search", "section", "select", "selected",
    "selectedcontent", "semantics", "set", "shadow", "shadowrootdelegatesfocus", "shadowrootmode", "shape", "show",
    "size", "sizes", "slot", "small", "source", "space", "spacer", "span", "spellcheck", "src", "srcdoc", "srclang",
    "srcset", "start", "step", "stop", "strike", "stroke", "strong", "style", "sub", "summary", "sup", "svg",
    "switch", "symbol", "tabindex", "table", "target", "tbody", "td", "template", "text", "textPath", "textarea",
    "tfoot", "th", "thead", "time", "title", "tr", "track", "transform", "translate", "tspan", "tt", "type", "u",
    "ul", "use", "usemap", "valign", "value", "var", "version", "video", "view", "viewBox", "vlink", "wbr", "width",
    "wrap", "x", "x1", "x2", "xlink", "xlink:href", "xlink:title", "xml", "xml:lang", "xml:space", "xmlns",
    "xmlns:xlink", "xmp", "y", "y1", "y2",
];

pub(crate) fn intern(s: &str) -> Option<&'static str> {
    NAMES.binary_search(&s).ok().map(|i| NAMES[i])
}

#[cfg(test)]
mod tests {
    #[test]
    fn names_are_patterns() {
        use crate::{LocalName, Namespace, QualName};
        let q = QualName::new(None, Namespace::from("http://www.w3.org/1999/xhtml"), LocalName::from(String::from("br")));
        assert!(matches!(q.local, crate::local_name!("br") | crate::local_name!("hr")));
        assert!(matches!(q.expanded(), crate::expanded_name!(html "br")));
        assert!(q.expanded() == crate::expanded_name!(html "br"));
    }
    #[test]
    fn names_are_sorted() {
        for w in super::NAMES.windows(2) {
            assert!(w[0] < w[1], "{w:?}");
        }
    }
    #[test]
    fn entities_are_sorted() {
        for w in super::entities::ENTITIES.windows(2) {
            assert!(w[0].0 < w[1].0, "{w:?}");
        }
    }
}
