//! Generators of documents. All choices come from one Rng.
use crate::dict;
use crate::rng::Rng;

pub type Pool = &'static [&'static str];

pub const WS: Pool = &[
    " ", " ", " ", "\n", "\n", "\n", "  ", "\t", "\n\n", "    ", "\n  ", "\n ",
];
pub const WORD: Pool = &[
    "a", "b", "word", "x y", "w ", "é", "1", "A", "日本", "two words", "q.", "ß", "😀", "it's", "Z",
    "aa", "(p)", "url", "s",
];
pub const DELIM: Pool = &[
    "*", "_", "^", "~", "{*", "*}", "{_", "_}", "{=", "=}", "{+", "+}", "{-", "-}", "{~", "~}",
    "{^", "^}", "**", "__", "=", "+", "* ", " *", "_ ", " _", "*_", "_*",
];
pub const SMART: Pool = &[
    "'", "\"", "{'", "'}", "{\"", "\"}", "-", "--", "---", "----", "-----", "------", "-------",
    ".", "..", "...", "....", "......", "-}", "{-", "' ", " '", "\" ", " \"", "'s", "\"a\"", "'a'",
    "----------", ".......",
];
pub const VERB: Pool = &[
    "`", "``", "```", "$`", "$$`", "{=html}", "{=", "{=x}", "$", "$$", "$$$`", " `", "` ", "`a`",
    "`` ` ``", "`\n", "\n`", "{=a b}", "{={}", "\\$`", "$``", "`{=html}", "`}",
];
pub const LINK: Pool = &[
    "[", "]", "(", ")", "](", "][", "[]", "![", "[a]", "[a](u)", "[a][]", "[a][b]", "![i](s)",
    "![i][a]", "(u\nv)", "<http://x>", "<a@b.c>", "<a:b", "<", ">", "[b]: ", "[a]: u\n", "[b]: v w\n",
    "\n[a]: u", "http://e.x/?a=1&b=\"2\"", "[a\nb]", "[x][a\nb]", "# a\n", "]()", "[](u)", "(\\))",
    "[a]:", "\n v", "<>", "mailto:", "{.c}", "\n{#i k=v}\n", "[A]", "[B]: W\n", "[x][A]", "[A]: U\n", "# A\n",
];
pub const ATTR: Pool = &[
    "{", "}", "{.c}", "{#i}", "{k=v}", "{k=\"v\"}", "{.c #i k=v}", "{%c%}", "{}", "{ }", ".c", "#i",
    "%", "=", "k=", "\"", "{.", "{#", "{k", "{k=", "{k=\"", "\\", "\\\"", "{k=\"a\nb\"}", "{.a\n.b}",
    "{a=\"x\\\"y\"}", "{class=c}", "{class=\"a b\"}", "{id=x}", "{:}", "{.a-b_c:d}", "\n{.c}\n",
    "{%\n%}", "{.c}{.d}", "{.c }", "{\n", "\n}", "{href=x}", "{k=\"&<\"}", "{%}", "{a=b c=d}",
];
pub const BLOCK: Pool = &[
    "> ", ">", "\n> ", "\n>", "# ", "## ", "\n# ", "\n#", "\n## ", "\n### ", "```\n", "```", "~~~\n",
    "\n~~~~\n", "\n```\n", "``` rs\n", "``` =html\n", ":::\n", "::: c\n", "\n:::\n", "\n::::\n", "***",
    "\n---\n", "* * *\n", "\n\n", "- ", "\n- ", "1. ", "\n  ", "\n    ", "|a|", "\n|", "[^a]: ",
    "\n[a]: ", ": ", "\n: ", "{.c}\n", "\n{#i}\n", "\n> - ", "\n- > ", "-\n", "- [ ] ", "#\n", "\n> ```\n",
];
pub const LIST: Pool = &[
    "- ", "+ ", "* ", "\n- ", "\n+ ", "\n* ", "\n  - ", "\n    - ", "\n1. ", "1. ", "\n2. ", "\n3) ",
    "\n(1) ", "(a) ", "\na. ", "\nb. ", "\ni. ", "\nii. ", "\niv) ", "\nA. ", "\nI. ", "\nV) ", "\nv. ",
    "\nx. ", "\nh. ", "\nj. ", "\n- [ ] ", "\n- [x] ", "- [X] ", "\n* [ ] ", "\n\n", "\n\n- ", "\n\n  ",
    "\n  ", "\n ", "\n\n    ", ": ", "\n: ", "\n\n1. ", "\n10. ", "\n0. ", "\n  1. ", "\n  a) ", "\n-",
    "-\n", "\nc. ", "\nd. ", "\nl. ", "\nm. ", "\n99999999999999999999. ", "\n1234567890123456789. ",
    "\n> - ", "\nmcmxciv. ", "\nIX) ", "\n   - ", "\n     b\n", "\n  c", "- - ", "- 1. ",
];
pub const DESC: Pool = &[
    ": ", "\n: ", "\n\n: ", "\n\n  ", "\n  ", "\n\n    ", ":", "\n:\n", "\n:", "t", "term", "\n\n  d\n",
    "\n  - ", "\n\n  - i\n", "\n  : ", "\n\n  > ", "\n  ```\n", "\n\n  ```\n  c\n  ```\n", "{.c}\n",
    "\n  {.d}\n", "\n  # h\n", "\n\n  |c|\n", "\n\n", "\n- ", "\n  [^a]: f\n", ": : ", ": - ", ": # ",
    ": > ", ": |a|", ": {.c}", ": ```\n",
];
pub const TABLE: Pool = &[
    "|", "|", "|", "\n|", "|\n", "|a|", "|a|b|\n", "|-|", "|-|-|\n", "|:-|", "|-:|", "|:-:|", "|---|--:|\n",
    "\\|", "`|`", "`", "``", "\n^ ", "^ cap", "\n\n^ ", "\n^ c\n d\n", "\n\n", "||", "| |", "|a\\", "| a | b |\n",
    "|:|", "|--|:--:|\n", "  |", "\n> |", "|*a*|", "*", "\\`", "\\\\", "|`a|b`|\n", "|[a](b|c)|", "|x|\n|-|\n|y|\n",
    "\t", "{.c}", "{.c}\n|a|\n", "^", "|1|2|3|\n", "|-|-|-|\n", "|:-:|-:|:-|\n",
];
pub const FOOT: Pool = &[
    "[^a]", "[^b]", "[^a]: ", "\n[^a]: ", "\n[^b]: ", "\n\n[^c]: ", "[^c]", "[^", "^]", "[^a]:\n", "\n  ",
    "\n\n  ", "[^a][^b]", "x[^a] ", "\n\n  para\n", "\n\n[^a]: t[^b]\n", "\n\n[^b]: u[^a]\n", "[^é]",
    "[^a b]", "![[^a]](x)", "\n\n[^d]: - i\n", "[^d]", "\n> [^a]: q\n", "\n- [^b]: l\n", "[^a]{.c}", "# h[^a]\n",
    "|[^a]|\n", "[^1]", "\n[^1]: ", "[x[^a]](u)", "\n  ```\n  c\n  ```\n", "\n\n", "[^]", "\n[^]: e",
];
pub const ESC: Pool = &[
    "\\", "\\\\", "\\ ", "\\\n", "\\  \n", "\\\t\n", "\\\t", "\\a", "\\*", "\\_", "\\`", "\\[", "\\]", "\\{", "\\}",
    "\\<", "\\.", "\\-", "\\'", "\\\"", "\\|", "\\#", "\\:", "\\!", "\\$", "\\é", "\\\r\n", "\\~", "\\^", "\\(", "\\)",
    "\\=", "\\+", "\\&", "\\%", "\\@", "\\/", "\\;", "\\,", "\\?", "\\>",
];
pub const MISC: Pool = &[
    ":s:", ":", ":+1:", ":a_b-c:", "&amp;", "&", "<b>", "\"", "\u{a0}", "\0", "\r", "\u{c}", "\u{b}",
    "\u{2028}", "\r\n", "<!--", "]]>", "%", "@", "/", ";", ",", "?", "!", "\u{301}", "\u{200b}", "\u{feff}",
    "::", ": ", "\u{fffd}", "\u{10ffff}", "\u{3000}", "\u{85}", "\u{2003}", "\n\u{a0}\n", "\n\u{3000}\n", "\n\u{85}\n", "\n\u{b}\n",
    "\n\u{c}\n", "\n\r\n", "\n\t\n", "\u{1c}",
];
pub const RAW: Pool = &[
    "`<b>`{=html}", "`x`{=tex}", "\n``` =html\n<i>\n```\n", "\n``` =tex\n\\x\n```\n", "\n``` = html\n", "```=html\n",
    "`<a>`{=HTML}", "{=html}", "![`<b>`{=html}](u)", "`&`{=html}",
];
pub const HOSTILE: Pool = &[
    "<", ">", "&", "\"", "'", "<script>", "</p>", "&lt;", "&#60;", "\" onload=\"x", "-->", "<b a='", "&amp;", "]]>",
    "\\<", "\\\"", "\\&",
];
pub const ATOM: Pool = &[
    ":s:", ":a-b:", ":+1:", ":a_b:", ":", "::", ":é:", ":a b:", ":1:", ":-:", ":a", "a:", ":\n:", ":s::t:", ":s:{.c}", "\n", "\n", " \n",
    "\\\n", "\\ \n", "\\\t\n", "\\ ", "  \n  ", "[a]{.c}", "[a]{}", "[", "]{.c}", "]", "{.c}", "[a\nb]{#i}", "[[a]{.c}]{.d}", "[]{.c}",
    "[^a]", "[^a]{.c}", "[^a b]", "[^a\nb]", "[^]", "[^", "[^[a]]", "[^a](u)", "[^a][b]", "<http://x>", "<a@b.c>", "<a:b>", "<a b:c>",
    "<:>", "<@>", "<a>", "<a:b\nc>", "<a:<b>", "<a\\:b>", "<mailto:a@b>", "<é:x>", "<x:>", "<x:y>{.c}", "<", ">", "[a]{k=v\n.c}", "[*a*]{.c}",
    "[a] {.c}", "[`]`]{.c}", "\\:s:", ":s\\:", "*:s:*",
];
pub const ALL: &[Pool] = &[
    WS, WORD, DELIM, SMART, VERB, LINK, ATTR, BLOCK, LIST, DESC, TABLE, FOOT, ESC, MISC, RAW, HOSTILE, ATOM,
];

fn seg(r: &mut Rng, pools: &[Pool]) -> &'static str {
    if r.one(50) {
        return r.pick(&dict::get().strings);
    }
    let p = *r.pick(pools);
    *r.pick(p)
}

/// Concatenation of random pieces of the pools, the first being the most common.
pub fn soup(r: &mut Rng, pools: &[Pool]) -> String {
    let len = match r.n(8) {
        0..=2 => r.r(1, 6),
        3..=5 => r.r(4, 14),
        6 => r.r(10, 30),
        _ => r.r(20, 60),
    };
    // a limited set of pieces makes their interplay more likely
    let limit = r.r(3, 14);
    let mut set: Vec<&'static str> = (0..limit)
        .map(|_| if r.one(2) { *r.pick(pools[0]) } else { seg(r, pools) })
        .collect();
    if r.one(3) {
        set.push("\n");
    }
    if r.one(3) {
        set.push(" ");
    }
    let open = r.n(10);
    let mut s = String::new();
    for _ in 0..len {
        let t = if r.n(10) < open {
            seg(r, pools)
        } else {
            set[r.n(set.len())]
        };
        if r.one(60) {
            for _ in 0..r.count() {
                s.push_str(t);
            }
        } else {
            s.push_str(t);
        }
        if r.one(80) {
            s.push(any_char(r));
        }
    }
    s
}

fn one_line(s: &str) -> String {
    s.replace('\n', " ")
}

/// Any character: of ASCII, of the first blocks of Unicode, or of all.
pub fn any_char(r: &mut Rng) -> char {
    let c = match r.n(4) {
        0 | 1 => r.n(0x80),
        2 => r.n(0x3000),
        _ => r.n(0x11_0000),
    };
    char::from_u32(c as u32).unwrap_or('\u{7f}')
}

/// Random mutation of a document.
pub fn mutate(r: &mut Rng, s: &str, other: &str, pools: &[Pool]) -> String {
    let mut s = s.to_string();
    for _ in 0..r.r(1, 4) {
        let mut c: Vec<char> = s.chars().collect();
        let at = r.n(c.len() + 1);
        match r.n(11) {
            0 | 1 => {
                if r.one(8) {
                    c.insert(at, any_char(r));
                } else {
                    c.splice(at..at, seg(r, pools).chars());
                }
            }
            2 => {
                let e = (at + r.few()).min(c.len());
                c.drain(at..e);
            }
            3 => {
                let e = (at + r.few()).min(c.len());
                let t = seg(r, pools);
                c.splice(at..e, t.chars());
            }
            4 => {
                // copy a part
                let e = (at + r.few() * 3).min(c.len());
                let part: Vec<char> = c[at..e].to_vec();
                let to = r.n(c.len() + 1);
                c.splice(to..to, part);
            }
            5 => {
                // splice with other
                let o: Vec<char> = other.chars().collect();
                let from = r.n(o.len() + 1);
                c.truncate(at);
                c.extend(&o[from..]);
            }
            6 => {
                // repeat a part
                let e = (at + r.few()).min(c.len());
                let part: Vec<char> = c[at..e].to_vec();
                for _ in 0..r.count().min(300) {
                    c.splice(at..at, part.iter().copied());
                }
            }
            7 => {
                let mut l: Vec<String> = s.split_inclusive('\n').map(str::to_string).collect();
                if !l.is_empty() {
                    let i = r.n(l.len());
                    let j = r.n(l.len());
                    match r.n(5) {
                        0 => l.swap(i, j),
                        1 => {
                            l.remove(i);
                        }
                        2 => {
                            let x = l[i].clone();
                            l.insert(j, x);
                        }
                        3 => l.insert(i, "\n".to_string()),
                        _ => {
                            let p = *r.pick(&[" ", "  ", "> ", "- ", "    ", "\t", "# ", "|", ": "]);
                            l[i].insert_str(0, p);
                        }
                    }
                }
                c = l.concat().chars().collect();
            }
            8 => {
                // wrap into container
                let (a, b) = *r.pick(&[
                    ("> ", "> "),
                    ("- ", "  "),
                    ("1. ", "   "),
                    (": ", "  "),
                    ("[^a]: ", " "),
                    ("- [ ] ", "  "),
                ]);
                c = prefix(&s, a, b).chars().collect();
            }
            9 => {
                c = s.split('\n').collect::<Vec<_>>().join("\r\n").chars().collect();
                if r.n(4) > 0 {
                    c.retain(|c| *c != '\r');
                }
            }
            _ => {
                let (a, b) = *r.pick(&[
                    ("*", "*"),
                    ("[", "](u)"),
                    ("`", "`"),
                    ("{", "}"),
                    ("\"", "\""),
                    ("'", "'"),
                    ("_", "_"),
                    ("![", "][a]"),
                    ("|", "|"),
                    ("{=", "=}"),
                    ("```\n", "\n```\n"),
                    (":::\n", "\n:::\n"),
                ]);
                let e = (at + r.few() * 2).min(c.len());
                c.splice(e..e, b.chars());
                c.splice(at..at, a.chars());
            }
        }
        s = c.into_iter().collect();
        if s.len() > 4000 {
            let mut e = 4000;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            s.truncate(e);
        }
    }
    s
}

/// Put `first` before the first line and `rest` before the other ones.
pub fn prefix(s: &str, first: &str, rest: &str) -> String {
    let mut o = String::new();
    for (i, l) in s.split_inclusive('\n').enumerate() {
        o.push_str(if i == 0 { first } else { rest });
        o.push_str(l);
    }
    o
}

/// Which constructs structured documents should contain most.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Focus {
    Any,
    Inline(Pool),
    List,
    Desc,
    Table,
    Foot,
    Head,
    Code,
    Div,
    Link,
    Attr,
}

/// Structured documents: nested blocks written in a regular way with occasional slips.
pub struct Doc<'r> {
    pub r: &'r mut Rng,
    pub focus: Focus,
    /// Out of 100, how often to deviate from the regular form.
    pub slip: usize,
    /// How many more blocks may be written.
    pub left: usize,
}

impl Doc<'_> {
    pub fn make(r: &mut Rng, focus: Focus) -> String {
        let slip = *r.pick(&[0, 0, 3, 10, 25]);
        let left = if r.one(25) { 200 } else { 24 };
        let mut d = Doc { r, focus, slip, left };
        let n = d.r.few();
        let mut lines = d.blocks(n, 0);
        if d.r.one(8) {
            lines.push(String::new());
        }
        let mut s = lines.join("\n");
        if d.r.n(3) > 0 {
            s.push('\n');
        }
        s
    }

    fn slip(&mut self) -> bool {
        self.r.n(100) < self.slip
    }

    fn blocks(&mut self, n: usize, depth: usize) -> Vec<String> {
        let mut out: Vec<String> = Vec::new();
        for i in 0..n {
            if self.left == 0 && i > 0 {
                break;
            }
            if i > 0 && !self.slip() {
                for _ in 0..if self.r.one(10) { 2 } else { 1 } {
                    out.push(if self.r.one(12) {
                        "  ".into()
                    } else {
                        String::new()
                    });
                }
            }
            if self.r.one(if self.focus == Focus::Attr { 2 } else { 7 }) {
                let a = self.attr();
                out.extend(a.split('\n').map(str::to_string));
                if self.slip() {
                    out.push(String::new());
                }
            }
            let b = self.block(depth);
            out.extend(b);
        }
        out
    }

    fn name(&mut self) -> String {
        // names that mean something in HTML
        if self.r.one(6) {
            return self
                .r
                .pick(&[
                    "href", "src", "style", "alt", "start", "type", "role", "lang", "title", "width", "language", "checked", "task-list", "math", "id",
                    "class", "fn1", "fnref1",
                ])
                .to_string();
        }
        if self.r.one(15) {
            return one_line(self.r.pick(&dict::get().strings));
        }
        self.r
            .pick(&["a", "b", "c", "k", "x-y", "q_1", "Z:z", "note", "data-x", "id", "class", "0"])
            .to_string()
    }

    pub fn attr(&mut self) -> String {
        let mut s = String::from("{");
        let n = self.r.n(4);
        for i in 0..n {
            if i > 0 || self.r.one(6) {
                s.push_str(self.r.pick(&[" ", " ", " ", "  ", "\t", "\n", "\n "]));
            }
            match self.r.n(7) {
                0 | 1 => {
                    s.push('.');
                    s += &self.name();
                }
                2 => {
                    s.push('#');
                    s += &self.name();
                }
                3 => {
                    s += &self.name();
                    s.push('=');
                    s += &self.name();
                }
                4 | 5 => {
                    s += &self.name();
                    s.push_str("=\"");
                    for _ in 0..self.r.n(4) {
                        s.push_str(self.r.pick(&[
                            "v", " ", "\\\"", "\\\\", "\\a", "é", "&", "<", "'", "\n", "}", "{", "%", "\\\n", "  ",
                        ]));
                    }
                    s.push('"');
                }
                _ => {
                    s.push('%');
                    s.push_str(self.r.pick(&["", "c", " a b ", "\n", "{", "\\"]));
                    s.push('%');
                }
            }
        }
        if self.r.one(6) {
            s.push(' ');
        }
        s.push('}');
        if self.slip() {
            let c: Vec<char> = s.chars().collect();
            let i = self.r.n(c.len());
            s = c[..i].iter().chain(&c[i + 1..]).collect();
        }
        if self.r.one(8) {
            s += &self.attr();
        }
        s
    }

    fn url(&mut self) -> String {
        if self.r.one(12) {
            return one_line(self.r.pick(&dict::get().strings));
        }
        self.r
            .pick(&[
                "u", "u", "u", "v", "http://x.y/z", "http://a.b?c=d&e", "", "", "a b", "u\\*", "u\\)", "u*", "<u>", "<", "&", "u\"", "\"", "#i", "#", "\\",
                "/", ".", "..", "?", "//x.y", "?a=1&b=\"2\"", "mailto:a@b.c", "tel:1", "javascript:alert(1)", "JavaScript:x", "data:text/html,<b>", "é.png",
                "a%20b", "https://x.y/#s-1", "file:///a", "i.svg", "'", "#fn1", "x'y", "a&amp;b",
            ])
            .to_string()
    }

    fn fence(&mut self, c: char) -> String {
        let n = match self.r.n(10) {
            0..=6 => 3,
            7 | 8 => self.r.r(4, 6),
            _ => self.r.count().max(3),
        };
        std::iter::repeat_n(c, n).collect()
    }

    fn block(&mut self, depth: usize) -> Vec<String> {
        let mut k = match self.focus {
            Focus::List if self.r.one(2) => 4,
            Focus::Desc if self.r.one(2) => 9,
            Focus::Table if self.r.one(2) => 5,
            Focus::Foot if self.r.one(3) => 6,
            Focus::Head if self.r.one(2) => 1,
            Focus::Code if self.r.one(2) => 3,
            Focus::Div if self.r.one(2) => 7,
            Focus::Link if self.r.one(3) => 8,
            Focus::Inline(_) if self.r.n(3) > 0 => 0,
            _ => self.r.n(12),
        };
        self.left = self.left.saturating_sub(1);
        if (depth > 3 || self.left == 0) && matches!(k, 2 | 4 | 6 | 7 | 9) {
            k = 0;
        }
        match k {
            1 => {
                let n = match self.r.n(12) {
                    0..=9 => self.r.r(1, 4),
                    10 => self.r.r(5, 9),
                    _ => self.r.count(),
                };
                let h: String = std::iter::repeat_n('#', n).collect();
                let mut out = vec![];
                let lines = if self.r.one(5) { 2 } else { 1 };
                for i in 0..lines {
                    let t = if self.focus == Focus::Head && self.r.one(2) {
                        self.r
                            .pick(&[
                                "a", "b", "a", "A", "a b", "s", "s-1", "a-1", "", "!", "-", "*a*", "`a`", "a\\*", "1", "é",
                                "_", "a_b", "--", "a  b", "[a]", "{#x} a", "a.", "s-2", "a-2", "[^a]", ":s:",
                            ])
                            .to_string()
                    } else {
                        self.inline_line()
                    };
                    out.push(if i == 0 || self.r.one(2) {
                        format!("{h} {t}")
                    } else {
                        t
                    });
                }
                out
            }
            2 => {
                let n = self.r.few().min(4);
                let inner = self.blocks(n, depth + 1);
                inner
                    .into_iter()
                    .enumerate()
                    .map(|(i, l)| {
                        if i > 0 && self.slip() {
                            l
                        } else if l.is_empty() {
                            if self.r.one(3) {
                                "> ".into()
                            } else {
                                ">".into()
                            }
                        } else {
                            format!("> {l}")
                        }
                    })
                    .collect()
            }
            3 => {
                let c = *self.r.pick(&['`', '~', '`']);
                let f = self.fence(c);
                let ind = if self.r.one(6) { " ".repeat(self.r.r(1, 4)) } else { String::new() };
                let info = *self
                    .r
                    .pick(&["", "", "rs", " rs", "=html", " =html", "=tex", "c++", " a b", "é", "=", "x`", "math", "html", "=HTML", "=latex", "text", "=="]);
                let mut out = vec![format!("{ind}{f}{info}")];
                for _ in 0..self.r.n(6) {
                    let l = match self.r.n(8) {
                        0 => String::new(),
                        1 => {
                            let c = if self.r.one(2) { '`' } else { '~' };
                            self.fence(c)
                        }
                        2 => " ".repeat(self.r.r(1, 5)),
                        3 => format!("{}x", " ".repeat(self.r.r(1, 6))),
                        4 => (*self.r.pick(&["> q", "# h", "- i", "|a|", ":::", "[a]: b", "\\", "\tt", "{.c}"])).into(),
                        _ => self.inline_line(),
                    };
                    out.push(format!("{ind}{l}"));
                }
                if !self.slip() {
                    out.push(format!("{ind}{f}"));
                }
                out
            }
            4 => self.list(depth),
            5 => self.table(),
            6 => {
                let l = *self.r.pick(&["a", "b", "c", "1", "é", "a b", "d", "e", "some-longer label"]);
                let n = if self.r.one(3) { 2 } else { 1 };
                let inner = self.blocks(n, depth + 1);
                let p = format!("[^{l}]: ");
                self.indent(inner, &p, self.slip / 4)
            }
            7 => {
                let f = self.fence(':');
                let c = *self.r.pick(&["", " note", "c", " a-b", " a b", " warning", "details", " section", " math"]);
                let n = self.r.few().min(4);
                let mut out = vec![format!("{f}{c}")];
                out.extend(self.blocks(n, depth + 1));
                if !self.slip() {
                    out.push(f);
                }
                out
            }
            8 => {
                let l = *self.r.pick(&["a", "b", "c", "a b", "h", "é", "x*y*", "1", "A", "B", "ab", "AB", "É", "some longer label"]);
                let u = self.url();
                let mut out = vec![format!("[{l}]: {u}")];
                while self.r.one(4) {
                    out.push(format!(" {}", self.r.pick(&["w", " w", "x ", "\\"])));
                }
                out
            }
            9 => {
                let n = self.r.few().min(4);
                let mut out = vec![];
                for i in 0..n {
                    if i > 0 && self.left == 0 {
                        break;
                    }
                    if i > 0 && self.r.one(2) {
                        out.push(String::new());
                    }
                    let mut inner = vec![];
                    if self.r.n(5) > 0 {
                        inner.extend(self.para());
                    }
                    if self.r.n(4) > 0 {
                        inner.push(String::new());
                        if self.r.one(6) {
                            inner.push(String::new());
                        }
                        let n = self.r.few().min(3);
                        inner.extend(self.blocks(n, depth + 1));
                    }
                    if inner.is_empty() {
                        inner.push(String::new());
                    }
                    out.extend(self.indent(inner, ": ", self.slip / 4));
                }
                out
            }
            10 => vec![(*self.r.pick(&["***", "---", "* * *", "- - -", "-*-", " ****", "-------"])).into()],
            _ => self.para(),
        }
    }

    /// Lines with a marker before the first and corresponding indentation before the others.
    fn indent(&mut self, lines: Vec<String>, marker: &str, slip: usize) -> Vec<String> {
        let w = if self.r.one(4) {
            self.r.r(1, marker.len() + 1)
        } else {
            marker.chars().count()
        };
        let pad = " ".repeat(w);
        lines
            .into_iter()
            .enumerate()
            .map(|(i, l)| {
                if i == 0 {
                    format!("{marker}{l}")
                } else if l.is_empty() || self.r.n(100) < slip {
                    l
                } else {
                    format!("{pad}{l}")
                }
            })
            .collect()
    }

    fn list(&mut self, depth: usize) -> Vec<String> {
        let n = if self.r.one(12) { self.r.r(8, 14) } else { self.r.few().min(5) };
        let style = self.r.n(9);
        let bullet = *self.r.pick(&["-", "+", "*"]);
        let (l, e) = *self.r.pick(&[("", "."), ("", ")"), ("(", ")")]);
        let mut v = if self.r.one(16) {
            *self.r.pick(&dict::get().numbers)
        } else {
            *self.r.pick(&[1usize, 1, 1, 2, 3, 4, 5, 8, 9, 10, 22, 99, 100, 1000])
        };
        let tight = self.r.n(3);
        let mut out: Vec<String> = vec![];
        for i in 0..n {
            if i > 1 && self.left == 0 {
                break;
            }
            if i > 0 && (tight == 0 || tight == 1 && self.r.one(5)) {
                out.push(String::new());
            }
            let marker = match style {
                0..=2 => format!("{bullet} "),
                3 => format!("{bullet} [{}] ", self.r.pick(&[" ", "x", "X"])),
                4 => format!("{l}{v}{e} "),
                5 => format!("{l}{}{e} ", (b'a' + ((v - 1) % 26) as u8) as char),
                6 => format!("{l}{}{e} ", (b'A' + ((v - 1) % 26) as u8) as char),
                7 => format!("{l}{}{e} ", roman(v.min(9999))),
                _ => format!("{l}{}{e} ", roman(v.min(9999)).to_uppercase()),
            };
            let marker = if self.slip() {
                let m = *self.r.pick(&["- ", "+ ", "1. ", "a) ", "i. ", "(C) ", "* [x] ", ": ", "-", "1."]);
                m.to_string()
            } else {
                marker
            };
            v += if self.slip() { self.r.n(3) } else { 1 };
            let k = match self.r.n(6) {
                0 => 2,
                1 => 0,
                _ => 1,
            };
            let mut inner = vec![];
            if k == 0 && self.r.one(2) {
                inner.extend(self.para());
                if depth < 4 {
                    if self.r.one(2) {
                        inner.push(String::new());
                    }
                    inner.extend(self.list(depth + 1));
                }
            } else if k > 0 && self.r.n(3) > 0 {
                inner.extend(self.para());
            } else {
                inner = self.blocks(k, depth + 1);
            }
            if inner.is_empty() {
                inner.push(String::new());
            }
            let s = self.slip;
            out.extend(self.indent(inner, &marker, s));
        }
        out
    }

    fn table(&mut self) -> Vec<String> {
        let cols = match self.r.n(10) {
            0..=7 => self.r.r(1, 4),
            8 => self.r.r(5, 12),
            _ => self.r.count().min(40),
        };
        let rows = if self.r.one(10) { self.r.r(5, 12) } else { self.r.r(1, 4) };
        let mut out = vec![];
        for _ in 0..rows {
            let sep = self.r.one(4);
            let n = if self.slip() { self.r.r(0, cols + 1) } else { cols };
            let mut l = String::from("|");
            for _ in 0..n {
                if sep {
                    l.push_str(self.r.pick(&["-", "---", ":-", "-:", ":-:", ":--:", " -- ", "--"]));
                    if self.slip() {
                        l.push('x');
                    }
                } else {
                    let pad = *self.r.pick(&["", " ", "  "]);
                    l.push_str(pad);
                    if self.r.one(3) {
                        l.push_str(self.r.pick(&[
                            "\\|", "`|`", "``|`|``", "", "*a*", "\\`", "`", "[a](b)", "a\\\\", "é", "-", "--x", ":", "\\\\\\|",
                            "{.c}", "x{.c}", "[^a]",
                        ]));
                    } else {
                        let t = self.inline_line();
                        l.push_str(&t.replace('|', ""));
                    }
                    l.push_str(pad);
                }
                l.push('|');
            }
            if self.slip() {
                l.pop();
            }
            if self.slip() {
                l.push_str(self.r.pick(&[" ", "x", "\t", "  "]));
            }
            out.push(l);
        }
        if self.r.one(4) {
            if self.r.one(2) {
                out.push(String::new());
            }
            let t = self.inline_line();
            out.push(format!("^ {t}"));
            if self.r.one(4) {
                let t = self.inline_line();
                out.push(t);
            }
        }
        out
    }

    fn para(&mut self) -> Vec<String> {
        let n = match self.r.n(6) {
            0..=2 => 1,
            3 | 4 => 2,
            _ => 3,
        };
        (0..n)
            .map(|_| {
                let mut l = self.inline_line();
                if self.r.one(12) {
                    l.insert_str(0, "  ");
                }
                if self.r.one(16) {
                    l.push_str(self.r.pick(&[" ", "  ", "\\", "\\ ", "\t"]));
                }
                l
            })
            .collect()
    }

    fn inline_line(&mut self) -> String {
        let n = self.r.few().min(8);
        let mut s = String::new();
        for _ in 0..n {
            self.inline(&mut s, 0);
            if self.r.one(3) {
                s.push(' ');
            }
        }
        let s: String = s.chars().filter(|c| *c != '\n').collect();
        s.trim_end().to_string()
    }

    fn word(&mut self, s: &mut String) {
        if self.r.one(60) {
            s.push_str(&one_line(self.r.pick(&dict::get().strings)));
        }
        if self.r.one(50) {
            s.push(any_char(self.r));
        }
        s.push_str(self.r.pick(&["a", "b", "foo", "x y", "é", "word ", "1", "A", "日", "the end"]));
    }

    fn inline(&mut self, s: &mut String, depth: usize) {
        let k = match self.focus {
            Focus::Inline(p) if self.r.one(3) => {
                s.push_str(self.r.pick(p));
                return;
            }
            Focus::Foot if self.r.one(4) => 9,
            Focus::Link if self.r.one(3) => self.r.r(6, 8),
            Focus::Attr if self.r.one(4) => 10,
            _ => self.r.n(24),
        };
        let inner = |d: &mut Self, s: &mut String| {
            if depth > 3 {
                d.word(s);
            } else {
                for _ in 0..d.r.few().min(3) {
                    d.inline(s, depth + 1);
                }
            }
        };
        match k {
            0..=2 => {
                let (a, b) = *self.r.pick(&[
                    ("*", "*"),
                    ("_", "_"),
                    ("^", "^"),
                    ("~", "~"),
                    ("{*", "*}"),
                    ("{_", "_}"),
                    ("{=", "=}"),
                    ("{+", "+}"),
                    ("{-", "-}"),
                    ("{^", "^}"),
                    ("{~", "~}"),
                ]);
                s.push_str(a);
                inner(self, s);
                if !self.slip() {
                    s.push_str(b);
                }
            }
            3 => {
                let n = if self.r.one(10) { self.r.count().min(20) } else { self.r.r(1, 3) };
                let f = "`".repeat(n);
                s.push_str(self.r.pick(&["", "", "", "$", "$$"]));
                s.push_str(&f);
                for _ in 0..self.r.r(1, 4) {
                    s.push_str(self.r.pick(&["a", " ", "*", "``", "`", "\\", "{.c}", "]", "<", "b c", "$"]));
                }
                if !self.slip() {
                    s.push_str(&f);
                }
                s.push_str(self.r.pick(&["", "", "", "{=html}", "{=tex}"]));
            }
            4 => {
                let q = *self.r.pick(&["\"", "'"]);
                s.push_str(q);
                inner(self, s);
                s.push_str(q);
            }
            5 => s.push_str(self.r.pick(&["--", "---", "...", "-", "----", "\\*", "\\ ", "\\\\", "'", "\"", "&", "<"])),
            6 => {
                s.push_str(self.r.pick(&["[", "[", "!["]));
                inner(self, s);
                s.push_str("](");
                let u = self.url();
                s.push_str(&u);
                s.push(')');
            }
            7 => {
                s.push_str(self.r.pick(&["[", "[", "!["]));
                if self.r.one(2) {
                    s.push_str(self.r.pick(&["a", "b", "*a*", "a b", "h", "A", "é", "B", "ab", "aB", "É"]));
                } else {
                    inner(self, s);
                }
                s.push_str("][");
                s.push_str(self.r.pick(&["", "", "a", "b", "a b", "h", "nope", "s", "A", "B", "Ab", "é", "some longer label"]));
                s.push(']');
            }
            8 => s.push_str(self.r.pick(&["<http://x.y>", "<a@b.c>", "<m:a@b>", "<x y>", "<>", "<a", "<mailto:a@b>", "<a.b@c:d>", "<#a:b>", "<HTTP://é>"])),
            9 => {
                s.push_str("[^");
                s.push_str(self.r.pick(&["a", "b", "c", "d", "e", "1", "é", "a b", "", "some-longer label"]));
                s.push(']');
            }
            10 => {
                self.word(s);
                let a = self.attr();
                s.push_str(&a);
            }
            11 => {
                s.push('[');
                inner(self, s);
                s.push(']');
                let a = self.attr();
                s.push_str(&a);
            }
            12 => s.push_str(self.r.pick(&[":s:", ":a-b:", ":+1:", ":x y:"])),
            _ => self.word(s),
        }
        if self.r.one(if self.focus == Focus::Attr { 4 } else { 14 }) {
            let a = self.attr();
            s.push_str(&a);
        }
    }
}

pub fn roman(mut n: usize) -> String {
    let mut s = String::new();
    for (v, t) in [
        (1000, "m"),
        (900, "cm"),
        (500, "d"),
        (400, "cd"),
        (100, "c"),
        (90, "xc"),
        (50, "l"),
        (40, "xl"),
        (10, "x"),
        (9, "ix"),
        (5, "v"),
        (4, "iv"),
        (1, "i"),
    ] {
        while n >= v {
            s.push_str(t);
            n -= v;
        }
    }
    s
}

/// A number of repetitions for `many`, with emphasis on what fits some integer type or table.
fn scale(r: &mut Rng) -> usize {
    match r.n(12) {
        0..=3 => r.r(8, 40),
        4 | 5 => *r.pick(&[31, 32, 33, 63, 64, 65, 99, 100, 101]),
        6 | 7 => *r.pick(&[127, 128, 129, 130]),
        8..=10 => *r.pick(&[254, 255, 256, 257, 258, 260]),
        _ => *r.pick(&[511, 512, 513, 600, 1000, 1024, 1030]),
    }
}

/// What is repeated: start, unit and end. `%` is the number of the unit, `@` the number of another one.
const MANY: &[(&str, &str, &str)] = &[
    ("", "[^f%] ", ""),
    ("", "[^f%]: x%\n\n", ""),
    ("", "[^f%]: [^f@]\n\n", ""),
    ("", "x[^f%]\n\n[^f%]: d%\n\n", ""),
    ("", "# h%\n\n", ""),
    ("", "# same\n\n", ""),
    ("", "## s\n\n", ""),
    ("", "[h%][] ", ""),
    ("", "[x][h@] ", ""),
    ("", "[l%]: u%\n", ""),
    ("", "[x][l%]\n", ""),
    ("", "[a](u%) ", ""),
    ("", "![a%](u) ", ""),
    ("", "<http://x/%> ", ""),
    ("", "- i%\n", ""),
    ("", "- i%\n\n", ""),
    ("", "- [x] i%\n", ""),
    ("", "%. i\n", ""),
    ("", "i%\n\n- x\n\n", ""),
    (": t\n\n", "  d%\n\n", ""),
    ("", ": t%\n\n  d\n\n", ""),
    ("", "|a%", "|\n"),
    ("", "|-", "|\n"),
    ("", "|:-:", "|\n"),
    ("", "|a%|b|\n", ""),
    ("", "|a%|\n|-|\n", ""),
    ("", "|a|\n|:-|\n\n", ""),
    ("", "p%\n\n", ""),
    ("", "l%\n", ""),
    ("> ", "q%\n> ", "\n"),
    ("", "::: c%\nd\n:::\n\n", ""),
    ("```\n", "c%\n", "```\n"),
    ("```\n", "\n", "x\n```\n"),
    ("", "\n", ""),
    ("", "***\n\n", ""),
    ("", "---\n", ""),
    ("{", ".c% ", "}"),
    ("{", "k%=v% ", "}"),
    ("{", "k=v% ", "}"),
    ("{k=\"", "v%\n", "\"}"),
    ("{", "%c%\n", "}\n"),
    ("", "{.c%}\n", "p\n"),
    ("w", "{.c%}", ""),
    ("", "w{.c%} ", ""),
    ("", "[s]{k%=v} ", ""),
    ("", "*s%* ", ""),
    ("", "*a ", ""),
    ("", "{_a ", ""),
    ("", "{=a% ", ""),
    ("", "_*", "a"),
    ("", "[", "a](u)"),
    ("", "`v%` ", ""),
    ("`", "v%\n", "`"),
    ("$`", "v% ", "`"),
    ("", "`r%`{=html}", ""),
    ("", "\"q%\" ", ""),
    ("", "'q% ", ""),
    ("", ":s%: ", ""),
    ("", "\\*", ""),
    ("", "\\ ", ""),
    ("", "h\\\n", "x"),
    ("", "-", " "),
    ("", ".", " "),
    ("", "é", " "),
    ("", "😀", ""),
    ("", " ", "x"),
    ("w", " ", "x"),
    ("", "\t", "x"),
    ("[a](", "u%\n", ")"),
    ("[d]: ", "u%\n ", "\n"),
    ("[", "a%\n", "][l1]"),
    ("[a][", "b% ", "]"),
    ("", "<b> & ", ""),
    ("[^g]: ", "f%\n\n  ", "\n"),
    // long names and the like
    (":", "s%-", ":"),
    ("<http:", "u%/", ">"),
    ("<a@", "u%.", ">"),
    ("[", "w", "](u){.a}"),
    ("", "w", "{.a}"),
    ("x ", "w", "{.a}"),
    ("", "w%_", "{#a}"),
    ("[x][", "r%", "]\n\n[r0r1r2r3]: u\n"),
    ("[x][r", "r", "]\n\n"),
    ("[r", "r", "]: u\n"),
    ("[^", "r", "]"),
    ("\n[^", "r", "]: d\n"),
    ("{#", "i", "}\n"),
    ("{.", "c", "}\n"),
    ("{", "k", "=v}\n"),
    ("{k=", "v", "}\n"),
    ("{k=\"", "v\\\"", "\"}\n"),
    ("`x`{=", "f", "}"),
    ("``` ", "l", "\nx\n```\n"),
    ("\n::: ", "c", "\nx\n:::\n"),
    ("\n", ":", "\nx\n"),
    ("\n", "`", "\nx\n```\n"),
    ("\n", "~", "\n~~~\n"),
    ("\n", "#", " h\n"),
    ("\n", "-", "\n"),
    ("\n", "* ", "\n"),
    ("\n", "| ", "|\n"),
    ("\n```", "\n ", "x\n```\n"),
    ("\n> a", "\nb", "\n"),
    ("\n- a", "\nb", "\n"),
    ("\n", " ", "- x\n"),
    ("\n-", " ", "x\n"),
    ("\n> ", ">", "\n"),
    ("\n", "> ", "x\n"),
    ("\n", "- ", "x\n"),
];

/// Parts that are repeated as often as each other.
const TOGETHER: &[&[(&str, &str, &str)]] = &[
    &[("\n|", "a%|", "\n"), ("|", ":-|", "\n"), ("|", "b|", "\n")],
    &[("\n|", "-:|", "\n"), ("|", "b|", "\n"), ("^ ", "c", "\n")],
    &[("\n`", "`", "\nx\n"), ("`", "`", "\n")],
    &[("\n~", "~", " l\n\n"), ("~", "~", "\nx\n")],
    &[("\n:", ":", "\nx\n"), (":", ":", "\ny\n")],
    &[("\n#", "#", " a\n"), ("#", "#", " b\n\n"), ("#", "#", " c\n")],
    &[("`", "`", " x "), ("`", "`", "")],
    &[("`", "`", " x "), ("`", "`", "y"), ("`", "`", "{=html}")],
    &[("[x][r", "r", "] "), ("[x][r", "r", "]\n\n"), ("[r", "r", "]: u\n")],
    &[("[a", "b ", "][]\n\n"), ("[a", "b ", "]: u\n")],
    &[("[a", " b", "][]\n\n"), ("# a", " b", "\n")],
    &[("x[^r", "r", "] "), ("[^r", "r", "]\n\n"), ("[^r", "r", "]: d\n")],
    &[("x[^r", "r", "]\n\n"), ("[^r", "r", "]: d\n"), ("[^r", "r", "]: e\n")],
    &[("[[x", "]", ""), ("(u", "u", ")")],
    &[("", "*_", "a"), ("", "_*", "")],
    &[("", "[a", "b"), ("", "](u)", "")],
    &[("", "[a", "b"), ("", "]{.c}", "")],
    &[("", "{=a", "b"), ("", "=}", "")],
    &[("", "\"a '", "b"), ("", "' c\"", "")],
    &[("\n- a\n ", " ", "b\n"), (" ", " ", "c\n\n"), (" ", " ", "d\n")],
    &[("\n[^a]:", " ", "b\n\n"), (" ", " ", "c\n")],
    &[("{k", "k", "=a "), ("k", "k", "=b}\n")],
    &[("\n", "- a%\n", "\n"), ("", "- b%\n", "")],
    &[("\n# a\n\n", "\n", ""), ("# a\n\n", "\n", "# a\n")],
];

fn repeated(s: &mut String, r: &mut Rng, a: &str, unit: &str, b: &str, n: usize) {
    s.push_str(a);
    for j in 0..n {
        for c in unit.chars() {
            match c {
                '%' => *s += &j.to_string(),
                '@' => *s += &r.n(n).to_string(),
                c => s.push(c),
            }
        }
    }
    s.push_str(b);
}

/// Documents with many of the same.
pub fn many(r: &mut Rng, focus: Focus) -> String {
    let mut s = String::new();
    if r.one(3) {
        s += &Doc::make(r, focus);
        s.push_str("\n\n");
    }
    for i in 0..r.few().min(3) {
        let n = if i == 0 { scale(r) } else { r.r(3, 40) };
        if r.one(4) {
            // several times as many of what belongs together
            for &(a, unit, b) in *r.pick(TOGETHER) {
                let n = if r.one(3) { (n + r.n(3)).saturating_sub(1) } else { n };
                repeated(&mut s, r, a, unit, b, n);
            }
        } else {
            let (a, unit, b) = *r.pick(MANY);
            repeated(&mut s, r, a, unit, b, n);
        }
        if r.one(2) {
            s.push_str(r.pick(&["\n\n", "\n", "x\n\n"]));
            s.push_str(r.pick(&["", "[x][l7]", "[^f3][^f255] [^f256]", "[h9][] [h300][]", "# same\n\n[same-256][]", "[same][]", "*a*{.b}\n", "- x\n"]));
            s.push_str(r.pick(&["\n\n", "\n", ""]));
        }
    }
    let mut s = match r.n(8) {
        0 => prefix(&s, "> ", "> "),
        1 => prefix(&s, "- ", "  "),
        2 => format!("::::: d\n{s}\n:::::\n"),
        _ => s,
    };
    if r.one(3) {
        s.push_str("\n\n");
        s += &Doc::make(r, focus);
    }
    s
}

/// A document that has more than 65,535 bytes, mostly before, in or between what is of interest.
pub fn big(r: &mut Rng, focus: Focus) -> String {
    // what is of interest comes after the first 65,536 bytes, or around them
    let mut s = if r.one(2) { Doc::make(r, focus) } else { String::new() };
    let last = Doc::make(r, focus);
    let n = if r.one(2) { 65_536 + r.n(400) } else { 65_536 - r.n(s.len() + last.len() + 1).min(30_000) };
    let unit = *r.pick(&["a", "é", "word ", "words\n", "p\n\n", "\n", "    \n", "*a* ", "\\*", "\"q\" ", "a{.b} ", "`v` ", "- i\n", "😀", "..."]);
    let fill = unit.repeat(n / unit.len() + 1);
    let (a, b) = *r.pick(&[
        ("", "\n\n"),
        ("", "\n\n"),
        ("", "\n"),
        ("```\n", "\n```\n"),
        ("`", "`\n\n"),
        ("{%", "%}\n"),
        ("{a=\"", "\"}\n"),
        ("[d]: ", "\n\n"),
        ("[l1]: u", "x\n\n"),
        ("[^f]: ", "\n\n"),
        ("[x](", ") "),
        ("![", "][l1] "),
        ("::: c\n", "\n:::\n"),
        ("> ", "\n> "),
        ("- ", "\n  "),
        (": ", "\n\n  "),
        ("|", "|"),
        ("# ", "\n\n"),
        ("```=html\n", "\n```\n"),
    ]);
    s.push_str(a);
    s += &fill;
    s.push_str(b);
    s += &last;
    if r.one(3) {
        s += "\n\n# same\n\n## x\n\n# same\n\n[x][l1] [^f] [same][] [x][]\n";
    }
    s
}

/// Containers nested in each other to some depth.
pub fn nested(r: &mut Rng, focus: Focus) -> String {
    let inner = Doc::make(r, focus);
    let n = if r.one(8) { scale(r).min(if r.one(4) { 300 } else { 130 }) } else { r.r(3, 24) };
    let mixed = r.n(3);
    let one = *r.pick(&['>', '-', '1', 'f', 'd', '+', 'i']);
    let mut lines: Vec<String> = inner.lines().map(str::to_string).collect();
    let mut fence = 3;
    for _ in 0..n {
        let k = if mixed > 0 { one } else { *r.pick(&['>', '-', '1', 'f', 'd', '+', 'i']) };
        let (a, b) = match k {
            '>' => ("> ", "> "),
            '-' => ("- ", "  "),
            '+' => ("+ [ ] ", "  "),
            '1' => ("1. ", "   "),
            'i' => (": ", "  "),
            'f' => ("[^a]: ", " "),
            _ => {
                lines.insert(0, ":".repeat(fence));
                if r.n(4) > 0 {
                    lines.push(":".repeat(fence));
                }
                fence += r.n(2);
                continue;
            }
        };
        for (i, l) in lines.iter_mut().enumerate() {
            if i == 0 {
                l.insert_str(0, a);
            } else if !l.is_empty() || k == '>' {
                l.insert_str(0, b);
            }
        }
        if r.one(6) {
            lines.push(String::new());
            lines.push("after".into());
        }
    }
    let mut s = lines.join("\n");
    s.push('\n');
    if s.len() > 60_000 {
        s = inner;
    }
    s
}
