//! Dictionaries and messages that are large in one dimension each: sections, groups, instances, nesting,
//! values, tags. Random generation reaches such sizes only now and then; these are always checked.
use crate::dict::{DictSpec, FieldDecl, Item, Level, MsgDecl, Style};
use crate::engine::{fail, Failure};
use crate::msg::{GMsg, Node};
use crate::props::common::{load, DictCase};
use std::collections::HashSet;

struct B {
    spec: DictSpec,
    nums: HashSet<u32>,
}
impl B {
    fn new() -> B {
        let spec = DictSpec { ty: "FIX".into(), major: "4".into(), minor: "3".into(), ..Default::default() };
        let mut b = B { spec, nums: HashSet::new() };
        b.spec.header = [8u32, 9, 35, 49, 56].iter().map(|n| b.field(*n)).collect();
        b.spec.trailer = vec![b.field(10)];
        b
    }
    fn name(&mut self, num: u32) -> String {
        let name = format!("F{}", num);
        if self.nums.insert(num) {
            self.spec.fields.push(FieldDecl { num, name: name.clone(), ty: "STRING".into(), values: vec![] });
        }
        name
    }
    fn field(&mut self, num: u32) -> Item {
        Item::Field { name: self.name(num), req: num % 2 == 0 }
    }
    fn fields(&mut self, nums: impl Iterator<Item = u32>) -> Vec<Item> {
        nums.map(|n| self.field(n)).collect()
    }
    fn group(&mut self, num: u32, items: Vec<Item>) -> Item {
        Item::Group { name: self.name(num), req: num % 3 == 0, items }
    }
    fn message(&mut self, mtype: &str, items: Vec<Item>) {
        let n = self.spec.messages.len();
        self.spec.messages.push(MsgDecl { name: format!("M{}", n), mtype: mtype.into(), cat: "app".into(), items });
    }
    fn done(self, mtype: &str, insts: &dyn Fn(usize) -> usize, val: &dyn Fn(u32, usize) -> String) -> Result<(DictCase, GMsg), Failure> {
        let d = self.spec.resolve().unwrap();
        let xml = self.spec.to_xml(&Style::plain());
        let dd = match load(&xml) {
            Ok(Ok(dd)) => dd,
            Ok(Err(e)) | Err(e) => return Err(fail("dict", format!("a well-formed dictionary is refused: {}", e), xml)),
        };
        let mut n = 0;
        let mut header = full(&d.header, 0, insts, val, &mut n);
        for (i, v) in ["FIX.4.3", "12", mtype].iter().enumerate() {
            header[i].val = v.to_string();
        }
        let body = full(&d.msgs[mtype], 0, insts, val, &mut n);
        let mut trailer = full(&d.trailer, 0, insts, val, &mut n);
        // CheckSum last
        let at = trailer.iter().position(|n| n.tag == 10).unwrap();
        let c = trailer.remove(at);
        trailer.push(c);
        let m = GMsg { mtype: mtype.into(), header, body, trailer };
        Ok((DictCase::Own(Box::new((self.spec, d, dd, xml))), m))
    }
}
/// every field and group of a level
fn full(l: &Level, depth: usize, insts: &dyn Fn(usize) -> usize, val: &dyn Fn(u32, usize) -> String, n: &mut usize) -> Vec<Node> {
    l.fields
        .iter()
        .map(|f| match &f.group {
            Some(g) => {
                let k = insts(depth);
                let grp = (0..k).map(|_| full(g, depth + 1, insts, val, n)).collect();
                Node { tag: f.tag, val: k.to_string(), grp: Some(grp) }
            }
            None => {
                *n += 1;
                Node::field(f.tag, &val(f.tag, *n))
            }
        })
        .collect()
}

/// tags around powers of two and ten and other limits
pub const EDGES: [u32; 46] = [
    1, 2, 7, 11, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 955, 956, 957, 999, 1000, 1001, 1023, 1024, 4999, 5000, 9999, 10000, 19999, 20000, 32767,
    32768, 39999, 40000, 49999, 65535, 65536, 99999, 100_000, 999_999, 16_777_216, 2_147_483_647, 2_147_483_648, 4_294_967_294, 4_294_967_295,
];

pub const KINDS: usize = 10;
/// one of them: its description, dictionary and a conforming message
pub fn get(kind: usize) -> Result<(&'static str, DictCase, GMsg), Failure> {
    let mut b = B::new();
    let short = |tag: u32, n: usize| format!("v{}-{}", tag, n);
    let (what, r) = match kind {
        0 => {
            let h = b.fields(2000..2400);
            b.spec.header.extend(h);
            let items = b.fields(3000..4500);
            b.message("D", items);
            let t = b.fields(5000..5300);
            b.spec.trailer.extend(t);
            ("sections of 400, 1500 and 300 fields", b.done("D", &|_| 1, &short))
        }
        1 => {
            let h = b.field(2000);
            b.spec.header.push(h);
            let g = b.fields(61..63);
            let g = b.group(60, g);
            let f = b.field(58);
            b.message("D", vec![f, g]);
            let t = b.field(89);
            b.spec.trailer.insert(0, t);
            let long = |tag: u32, n: usize| match tag {
                2000 => "ab=".repeat(30_000),
                58 => "\u{e9}".repeat(1 << 20) + "z",
                61 => format!("{}{}", "x".repeat(70_000), n),
                62 => " ".repeat(140_001),
                89 => "10=".repeat(100_000),
                _ => short(tag, n),
            };
            ("values of 70 kB to 2 MB", b.done("D", &|_| 2, &long))
        }
        2 => {
            let g = b.fields(61..63);
            let g = b.group(60, g);
            let h = b.fields(71..73);
            let h = b.group(70, h);
            b.spec.header.push(h);
            let f = b.field(58);
            b.message("D", vec![g, f]);
            ("groups of 5000 instances", b.done("D", &|_| 5000, &short))
        }
        3 => {
            let mut items = b.fields(2000..2700);
            let sub = b.fields(4000..4300);
            let sub = b.group(3999, sub);
            items.push(sub);
            items.extend(b.fields(2700..2710));
            let g = b.group(60, items);
            let h = b.fields(6000..6300);
            let h = b.group(5999, h);
            b.spec.header.push(h);
            let f = b.field(58);
            b.message("D", vec![g, f]);
            ("groups of 300 and 711 members", b.done("D", &|_| 3, &short))
        }
        4 => {
            let mut items = b.fields(3000..3002);
            for d in 0..40u32 {
                let g = b.group(2000 + d, items);
                items = vec![b.field(3100 + 2 * d), g];
                items.push(b.field(3101 + 2 * d));
            }
            b.message("D", items);
            ("groups nested 40 deep", b.done("D", &|d| if d < 3 { 2 } else { 1 }, &short))
        }
        5 => {
            // the edges as plain fields
            let items = b.fields(EDGES.iter().copied());
            b.message("D", items);
            ("edge tags in the body", b.done("D", &|_| 1, &short))
        }
        6 => {
            // as header and trailer fields, delimiters, members and counts
            let e: Vec<u32> = EDGES.to_vec();
            let h = b.fields(e[0..10].iter().copied());
            b.spec.header.extend(h);
            let t = b.fields(e[10..16].iter().copied().chain([2_147_483_646]));
            b.spec.trailer.extend(t);
            let mut items = vec![];
            for c in e[16..].chunks(3) {
                let m = b.fields(c[1..].iter().copied());
                items.push(b.group(c[0], m));
            }
            b.message("D", items);
            ("edge tags in headers, trailers and groups", b.done("D", &|_| 2, &short))
        }
        7 => {
            // the greatest ones everywhere
            let h = b.fields([4_294_967_295, 2_147_483_648].into_iter());
            b.spec.header.extend(h);
            let m = b.fields([4_294_967_293, 4_294_967_290].into_iter());
            let s = b.fields([4_294_967_287, 4_294_967_288].into_iter());
            let s = b.group(4_294_967_286, s);
            let g = b.group(4_294_967_294, [m, vec![s]].concat());
            b.message("D", vec![g]);
            let t = b.field(4_294_967_292);
            b.spec.trailer.insert(0, t);
            ("the greatest tags", b.done("D", &|_| 2, &short))
        }
        8 => {
            let mut items = vec![];
            for k in 0..400u32 {
                let m = b.fields(2000 + 3 * k + 1..2000 + 3 * k + 3);
                items.push(b.group(2000 + 3 * k, m));
            }
            b.message("D", items);
            ("400 groups", b.done("D", &|_| 2, &short))
        }
        _ => {
            for k in 0..1000u32 {
                let f = b.fields(2000 + k..2003 + k);
                b.message(&format!("T{}", k), f);
            }
            let f = b.fields(5000..5003);
            let long = "LongType".repeat(40);
            b.message(&long, f);
            ("1001 message types", b.done(&long, &|_| 1, &short))
        }
    };
    let (c, m) = r?;
    Ok((what, c, m))
}
