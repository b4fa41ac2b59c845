//! C20: the text of a matrix.  Elements render as marked strings; the text is cut into lines and
//! words and compared with what the logical matrix demands.
use crate::outside;
use crate::vt;
use std::fmt;
use std::fmt::Write;

/// One rendering; Display and Debug differ in their first byte.
#[derive(Clone)]
pub struct E {
    debug: Vec<u8>,
    display: Vec<u8>,
}
fn utf8(v: &[u8]) -> &str {
    // the harness only builds valid UTF-8
    unsafe { std::str::from_utf8_unchecked(v) }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(utf8(&self.display))
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(utf8(&self.debug))
    }
}

/// How many single-line kinds of rendering there are.
const SINGLE: usize = 8;
const SPACED: usize = 4;
const MULTI: usize = 8;
fn letter(name: &str) -> u8 {
    // any visible ASCII character
    let b = vt::sym(8, name) as u8;
    vt::assume((b >= 0x21) & (b <= 0x7e));
    b
}
/// Rendering of kind `k`, of the `i`-th element of the memory order.
fn element(i: usize, k: usize) -> E {
    let mark = [b'A' + (i / 26) as u8, b'a' + (i % 26) as u8];
    let mark = if i < 26 { &mark[1..] } else { &mark[..] };
    let tail: Vec<u8> = match k {
        0 => return E { debug: Vec::new(), display: Vec::new() },
        1 => vec![],
        2 => vec![letter("tail")],
        3 => vec![letter("tail"), letter("tail")],
        // two bytes, one character: U+00C0..U+00FF
        4 => {
            let b = vt::sym(8, "tail") as u8;
            vt::assume((b >= 0x80) & (b <= 0xbf));
            vec![0xc3, b]
        }
        5 => "日本".as_bytes().to_vec(),
        6 => "𝄞".as_bytes().to_vec(),
        7 => b"0123456789".to_vec(),
        // with blanks
        8 => b" .".to_vec(),
        9 => b". ".to_vec(),
        10 => b"  ".to_vec(),
        11 => "\tx\u{a0}y".as_bytes().to_vec(),
        // more than one line, or nearly so
        12 => b"\n".to_vec(),
        13 => b"\nbb".to_vec(),
        14 => b"\n\n\nb\n".to_vec(),
        15 => b"\r\nb".to_vec(),
        16 => b"\r".to_vec(),
        17 => "é\n日本日本\nx".as_bytes().to_vec(),
        18 => return E { debug: b"\n".to_vec(), display: b"\n".to_vec() },
        _ => return E { debug: b"\n\n  ".to_vec(), display: b"\n\n ".to_vec() },
    };
    let mut debug = mark.to_vec();
    debug.extend_from_slice(&tail);
    let mut display = b".".to_vec();
    display.extend_from_slice(&debug);
    E { debug, display }
}

macro_rules! builder {
    ($f:ident, $c:ident) => {
        fn $f<X>(rows: usize, cols: usize, col_major: bool, data: Vec<X>) -> $c::Matrix<X> {
            let mut m = $c::Matrix::from_row(data);
            if !col_major {
                vt::check(m.reshape((rows, cols)).is_ok(), "pre-state");
            } else {
                vt::check(m.reshape((cols, rows)).is_ok(), "pre-state");
                m.switch_order_without_rearrangement();
            }
            m
        }
    };
}
builder!(plain, matreex);
builder!(bare, matreex_bare);
builder!(full, matreex_full);

fn flat(r: usize, c: usize, col_major: bool, i: usize, j: usize) -> usize {
    if col_major { j * r + i } else { i * c + j }
}

/// What the formatting machinery is asked for.
fn text<D: fmt::Debug + fmt::Display>(m: &D, debug: bool, flags: usize) -> String {
    let mut s = String::new();
    let r = vt::catches(|| match (debug, flags) {
        (false, 0) => write!(s, "{}", m),
        (false, 1) => write!(s, "{:>9}", m),
        (false, 2) => write!(s, "{:<3.1}", m),
        (false, _) => write!(s, "{:#}", m),
        (true, 0) => write!(s, "{:?}", m),
        (true, 1) => write!(s, "{:>9?}", m),
        (true, 2) => write!(s, "{:<3.1?}", m),
        (true, _) => write!(s, "{:#?}", m),
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(_)) => vt::check(false, "formatting reports an error"),
        Err(()) => vt::check(false, "formatting panics"),
    }
    s
}
fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut e = true;
    for k in 0..a.len() {
        e &= a[k] == b[k];
    }
    e
}

fn split_at(t: &[u8], sep: u8) -> Vec<&[u8]> {
    let mut v = Vec::new();
    let mut from = 0;
    for k in 0..t.len() {
        if t[k] == sep {
            v.push(&t[from..k]);
            from = k + 1;
        }
    }
    v.push(&t[from..]);
    v
}
fn words(t: &[u8]) -> Vec<&[u8]> {
    split_at(t, b' ').into_iter().filter(|w| !w.is_empty()).collect()
}
fn trim(mut t: &[u8]) -> &[u8] {
    while let [b' ', r @ ..] = t {
        t = r;
    }
    while let [r @ .., b' '] = t {
        t = r;
    }
    t
}
fn chars(t: &[u8]) -> usize {
    let mut n = 0;
    for b in t {
        if (*b as i8) >= -0x40 {
            n += 1;
        }
    }
    vt::split(n)
}
fn number(mut n: usize) -> Vec<u8> {
    let mut v = vec![b'0' + (n % 10) as u8];
    while n >= 10 {
        n /= 10;
        v.insert(0, b'0' + (n % 10) as u8);
    }
    v
}
/// The words agree, or (elements with blanks) at least everything but the blanks does.
fn matches(got: &[u8], want: &[Vec<u8>], blanks: bool) -> bool {
    if blanks {
        let g: Vec<u8> = got.iter().copied().filter(|b| *b != b' ').collect();
        let w: Vec<u8> = want.iter().flatten().copied().filter(|b| *b != b' ').collect();
        return same(&g, &w);
    }
    let g = words(got);
    let w: Vec<&Vec<u8>> = want.iter().filter(|x| !x.is_empty()).collect();
    if g.len() != w.len() {
        return false;
    }
    let mut e = true;
    for k in 0..g.len() {
        e &= same(g[k], w[k]);
    }
    e
}

/// `t` is what the matrix (r, c, elements in memory order `v`) must look like.
fn judge(t: &str, debug: bool, r: usize, c: usize, col_major: bool, v: &[E], blanks: bool) {
    let t = t.as_bytes();
    if r * c == 0 && same(trim(t), b"[]") {
        return;
    }
    let mut l: Vec<&[u8]> = split_at(t, b'\n');
    vt::check(l.len() >= 2 && same(trim(l[0]), b"[") && same(trim(l[l.len() - 1]), b"]"), "the text is not enclosed in brackets");
    l.remove(0);
    l.pop();
    if debug {
        vt::check(!l.is_empty(), "the line of column numbers is missing");
        let want: Vec<Vec<u8>> = (0..c).map(number).collect();
        vt::check(matches(l[0], &want, false), "the column numbers are wrong");
        l.remove(0);
    }
    vt::check(l.len() == r, "not one line per row");
    let mut width = None;
    for i in 0..r {
        let w = chars(l[i]);
        vt::check(width.is_none() || width == Some(w), "row lines differ in width");
        width = Some(w);
        let mut x = trim(l[i]);
        if debug {
            let n = number(i);
            vt::check(x.len() > n.len() && same(&x[..n.len()], &n) && x[n.len()] == b' ', "the row number is wrong");
            x = trim(&x[n.len()..]);
        }
        vt::check(x.len() >= 2 && x[0] == b'[' && x[x.len() - 1] == b']', "a row is not enclosed in brackets");
        x = &x[1..x.len() - 1];
        let mut want = Vec::new();
        for j in 0..c {
            let k = flat(r, c, col_major, i, j);
            if debug {
                want.push(number(k));
            }
            want.push(if debug { v[k].debug.clone() } else { v[k].display.clone() });
        }
        vt::check(matches(x, &want, blanks), "a row line does not show its elements in column order");
    }
}

/// No colours: the ways in which an output can lack support for them.
fn surroundings() {
    match vt::choose(0, 3, "colours") {
        // not a terminal, whatever else looks inviting
        0 => {
            outside::terminal(2, true);
            outside::terminal(0, true);
            outside::variable(outside::TERM, 2);
            outside::variable(outside::COLORTERM, 3);
            outside::variable(outside::CLICOLOR, 0);
        }
        1 => {}
        // a terminal, but not wanted
        2 => {
            outside::terminal(1, true);
            outside::terminal(2, true);
            outside::variable(outside::TERM, 2);
            outside::variable(outside::NO_COLOR, 0);
        }
        // a terminal that cannot
        _ => {
            outside::terminal(1, true);
            outside::terminal(2, true);
            outside::variable(outside::TERM, 1);
            outside::variable(outside::COLORTERM, 3);
            outside::variable(outside::CI, 0);
        }
    }
}

/// Everything the property says about one matrix.
fn all(r: usize, c: usize, col_major: bool, v: Vec<E>, flags: usize, judged: bool, blanks: bool) {
    let a = plain(r, c, col_major, v.clone());
    let b = bare(r, c, col_major, v.clone());
    let p = full(r, c, col_major, v.clone());
    for debug in [false, true] {
        let t = text(&a, debug, flags);
        if judged {
            judge(&t, debug, r, c, col_major, &v, blanks);
        }
        vt::check(same(t.as_bytes(), text(&b, debug, flags).as_bytes()), "the text differs without default features");
        vt::check(same(t.as_bytes(), text(&p, debug, flags).as_bytes()), "the text differs with the colour feature where colours are not supported");
        if !debug {
            // the same logical matrix in the other order
            let mut w = Vec::new();
            for k in 0..r * c {
                let (i, j) = if col_major { (k / c, k % c) } else { (k % r, k / r) };
                w.push(v[flat(r, c, col_major, i, j)].clone());
            }
            let o = plain(r, c, !col_major, w);
            vt::check(same(t.as_bytes(), text(&o, false, flags).as_bytes()), "Display differs between the storage orders");
        }
        for x in t.as_bytes().iter().step_by(7).take(12) {
            vt::observe(*x as u64);
        }
        vt::observe(t.len() as u64);
    }
}

/// Every combination of renderings on small shapes.
fn combinations(max: usize, kinds: usize) {
    let (r, c) = (vt::choose(0, max, "rows"), vt::choose(0, max, "cols"));
    vt::assume(r * c <= 4);
    let col_major = vt::choose_bool("order");
    let mut key = r * 3 + c;
    let mut v = Vec::new();
    for i in 0..r * c {
        let k = vt::choose(0, kinds - 1, "kind");
        key = key * 5 + k;
        if i == 1 || r * c == 1 {
            vt::shard(key);
        }
        v.push(element(i, k));
    }
    if r * c == 0 {
        vt::shard(key);
    }
    surroundings_first();
    all(r, c, col_major, v, 0, true, false);
    vt::cover(if r * c == 0 { "no elements" } else { "rendered" });
}
fn surroundings_first() {
    outside::terminal(2, true);
    outside::variable(outside::TERM, 2);
    outside::variable(outside::COLORTERM, 3);
}
/// One exceptional rendering among ordinary ones, on larger shapes.
fn exceptional(max: usize, most: usize) {
    let (r, c) = (vt::choose(1, max, "rows"), vt::choose(1, max, "cols"));
    vt::assume(r * c <= most);
    let col_major = vt::choose_bool("order");
    let at = vt::choose(0, r * c - 1, "position");
    vt::shard(r * 31 + c * 7 + at);
    let k = vt::choose(0, SINGLE + SPACED - 1, "kind");
    let other = vt::choose(0, 1, "other");
    let v = (0..r * c).map(|i| element(i, if i == at { k } else { other })).collect();
    surroundings_first();
    all(r, c, col_major, v, 0, true, k >= SINGLE);
    vt::cover("rendered");
}
/// One exceptional rendering, or two, among many ordinary ones.
fn far(shapes: usize) {
    const S: &[(usize, usize)] = &[(6, 6), (1, 40), (5, 7), (33, 2), (9, 8), (1, 105), (40, 1), (2, 33), (17, 4), (11, 12), (105, 1), (3, 90)];
    let k = vt::choose(0, shapes - 1, "shape");
    let (r, c) = S[k];
    let n = r * c;
    let col_major = vt::choose_bool("order");
    let at = [0, n / 2, n - 2, n - 1][vt::choose(0, 3, "position")];
    vt::shard(k * 7 + at);
    let k = [0, 4, 5, 7, 9][vt::choose(0, 4, "kind")];
    let two = vt::choose_bool("two");
    let v = (0..n).map(|i| element(i, if i == at { k } else if two && i + 3 == n { 5 } else { 1 })).collect();
    surroundings_first();
    all(r, c, col_major, v, 0, true, k >= SINGLE);
    vt::cover("rendered");
}
/// Renderings that are not a single line: no panic, and still the same in every configuration.
fn several_lines(max: usize) {
    let (r, c) = (vt::choose(1, max, "rows"), vt::choose(1, max, "cols"));
    let col_major = vt::choose_bool("order");
    let at = vt::choose(0, r * c - 1, "position");
    let k = vt::choose(SINGLE + SPACED, SINGLE + SPACED + MULTI - 1, "kind");
    let at2 = vt::choose(0, r * c - 1, "position2");
    vt::shard(r * 31 + c * 7 + at + 3 * k + at2 * 5);
    let k2 = vt::choose(0, SINGLE + SPACED + MULTI - 1, "kind2");
    let v = (0..r * c).map(|i| element(i, if i == at { k } else if i == at2 { k2 } else { 1 })).collect();
    surroundings_first();
    all(r, c, col_major, v, 0, false, false);
    vt::cover("several lines");
}
/// Format flags and the surroundings change nothing.
fn settings() {
    let (r, c) = (vt::choose(0, 2, "rows"), vt::choose(0, 2, "cols"));
    let col_major = vt::choose_bool("order");
    vt::shard(r * 3 + c);
    let flags = vt::choose(0, 3, "flags");
    surroundings();
    let v = (0..r * c).map(|i| element(i, 1 + i % 3)).collect();
    all(r, c, col_major, v, flags, true, false);
    vt::cover("rendered");
}
/// Numbers of two and three digits.
fn lines(most: usize) {
    const S: &[(usize, usize)] = &[(1, 10), (1, 11), (10, 1), (11, 1), (2, 5), (5, 2), (2, 6), (6, 2), (3, 4), (4, 3), (1, 12), (12, 1), (4, 4), (1, 100), (100, 1), (1, 101), (101, 1), (10, 11), (11, 10)];
    let k = vt::choose(0, S.len() - 1, "shape");
    vt::shard(k);
    let (r, c) = S[k];
    vt::assume(r * c <= most);
    let col_major = vt::choose_bool("order");
    let v = (0..r * c).map(|i| element(i, if r * c <= 16 { 1 + i % 2 } else { 1 })).collect();
    surroundings_first();
    all(r, c, col_major, v, 0, true, false);
    vt::cover("rendered");
}

/// The writer gives up after any number of bytes: an error, not a panic.
struct Failing(usize);
impl fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.len() > self.0 {
            return Err(fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}
fn writer() {
    let (r, c) = (vt::choose(0, 2, "rows"), vt::choose(0, 2, "cols"));
    let col_major = vt::choose_bool("order");
    vt::shard(r * 3 + c);
    let debug = vt::choose_bool("debug");
    let v: Vec<E> = (0..r * c).map(|i| element(i, i % 3)).collect();
    let pretty = vt::choose_bool("pretty");
    let room = vt::sym_usize("room");
    let mut f = Failing(room);
    let res = if pretty {
        let m = full(r, c, col_major, v);
        vt::catches(|| if debug { write!(f, "{:?}", m) } else { write!(f, "{}", m) })
    } else {
        let m = plain(r, c, col_major, v);
        vt::catches(|| if debug { write!(f, "{:?}", m) } else { write!(f, "{}", m) })
    };
    match res {
        Err(()) => vt::check(false, "formatting panics when the writer fails"),
        Ok(Ok(())) => vt::cover("complete"),
        Ok(Err(_)) => vt::cover("writer failed"),
    }
}

/// An element wider than the widths of format strings.
struct Wide(usize);
impl fmt::Display for Wide {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        const CHUNK: &str = unsafe { std::str::from_utf8_unchecked(&[b'w'; 4096]) };
        let mut n = self.0;
        while n > 4096 {
            f.write_str(CHUNK)?;
            n -= 4096;
        }
        f.write_str(&CHUNK[..n])
    }
}
impl fmt::Debug for Wide {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}
struct Count(usize);
impl fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
fn wide() {
    let w = vt::choose(65534, 65537, "width");
    let debug = vt::choose_bool("debug");
    let pretty = vt::choose_bool("pretty");
    vt::shard(w + 4 * debug as usize + 8 * pretty as usize);
    let first = vt::choose_bool("first");
    let v = if first { vec![Wide(w), Wide(1)] } else { vec![Wide(1), Wide(w)] };
    let mut f = Count(0);
    let res = if pretty {
        let m = full(2, 1, false, v);
        vt::catches(|| if debug { write!(f, "{:?}", m) } else { write!(f, "{}", m) })
    } else {
        let m = plain(2, 1, false, v);
        vt::catches(|| if debug { write!(f, "{:?}", m) } else { write!(f, "{}", m) })
    };
    vt::check(matches!(res, Ok(Ok(()))), "formatting a wide element panics");
    vt::check(f.0 > 2 * w, "row lines differ in width");
    vt::cover("wide");
}

harnesses! {
    fn h_c20_small() { combinations(vt::tier(4, 4), vt::tier(6, SINGLE)) }
    fn h_c20_shapes() { exceptional(4, vt::tier(9, 16)) }
    fn h_c20_lines() { lines(110) }
    fn h_c20_far() { far(vt::tier(6, 12)) }
    fn h_c20_multi() { several_lines(vt::tier(2, 3)) }
    fn h_c20_settings() { settings() }
    fn h_c20_writer() { writer() }
    fn h_c20_wide() { wide() }
}
