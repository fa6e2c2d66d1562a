//! Any serde value as a tree that encodes to the bytes bincode gives: structure-aware alterations of
//! messages without a hand-written schema.
use serde::ser::*;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    /// fixed-width piece
    Raw(Vec<u8>),
    /// length-prefixed bytes (points, digests)
    Bytes(Vec<u8>),
    /// length-prefixed 32 bytes given one by one: a field element; more or fewer after an alteration
    Scalar(Vec<u8>),
    Seq(Vec<Node>),
    Tuple(Vec<(&'static str, Node)>),
}

impl Node {
    pub fn of<T: Serialize>(t: &T) -> Node {
        t.serialize(Ser).unwrap()
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![];
        self.write(&mut v);
        v
    }
    fn write(&self, v: &mut Vec<u8>) {
        match self {
            Node::Raw(b) => v.extend_from_slice(b),
            Node::Bytes(b) | Node::Scalar(b) => {
                v.extend_from_slice(&(b.len() as u64).to_le_bytes());
                v.extend_from_slice(b);
            }
            Node::Seq(k) => {
                v.extend_from_slice(&(k.len() as u64).to_le_bytes());
                k.iter().for_each(|n| n.write(v));
            }
            Node::Tuple(k) => k.iter().for_each(|n| n.1.write(v)),
        }
    }
    /// Paths of all nodes that satisfy f.
    pub fn find(&self, f: &dyn Fn(&Node) -> bool) -> Vec<Vec<usize>> {
        fn go(n: &Node, at: &mut Vec<usize>, f: &dyn Fn(&Node) -> bool, out: &mut Vec<Vec<usize>>) {
            if f(n) {
                out.push(at.clone());
            }
            let kids: Vec<&Node> = match n {
                Node::Seq(k) => k.iter().collect(),
                Node::Tuple(k) => k.iter().map(|x| &x.1).collect(),
                _ => vec![],
            };
            for (i, k) in kids.into_iter().enumerate() {
                at.push(i);
                go(k, at, f, out);
                at.pop();
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], f, &mut out);
        out
    }
    pub fn at(&self, path: &[usize]) -> &Node {
        path.iter().fold(self, |n, i| match n {
            Node::Seq(k) => &k[*i],
            Node::Tuple(k) => &k[*i].1,
            _ => panic!("bad path"),
        })
    }
    pub fn at_mut(&mut self, path: &[usize]) -> &mut Node {
        path.iter().fold(self, |n, i| match n {
            Node::Seq(k) => &mut k[*i],
            Node::Tuple(k) => &mut k[*i].1,
            _ => panic!("bad path"),
        })
    }
    pub fn name(&self, path: &[usize]) -> String {
        let mut n = self;
        let mut s = String::new();
        for i in path {
            n = match n {
                Node::Seq(k) => {
                    s += &format!("[{i}]");
                    &k[*i]
                }
                Node::Tuple(k) => {
                    if k[*i].0.is_empty() {
                        s += &format!(".{i}");
                    } else {
                        s += &format!(".{}", k[*i].0);
                    }
                    &k[*i].1
                }
                _ => panic!("bad path"),
            };
        }
        s
    }
    /// The path with indices left out: which kind of field.
    pub fn kind(&self, path: &[usize]) -> String {
        let s = self.name(path);
        let mut out = String::new();
        let mut skip = false;
        for c in s.chars() {
            match c {
                '[' => skip = true,
                ']' => skip = false,
                _ if !skip => out.push(c),
                _ => {}
            }
        }
        out
    }
}

#[derive(Debug)]
pub struct Nope(String);
impl fmt::Display for Nope {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Nope {}
impl serde::ser::Error for Nope {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Nope(m.to_string())
    }
}

struct Ser;
struct SeqSer(Vec<Node>);
struct TupSer(Vec<(&'static str, Node)>);
type R = Result<Node, Nope>;
fn raw(b: &[u8]) -> R {
    Ok(Node::Raw(b.to_vec()))
}

impl Serializer for Ser {
    type Ok = Node;
    type Error = Nope;
    type SerializeSeq = SeqSer;
    type SerializeTuple = TupSer;
    type SerializeTupleStruct = TupSer;
    type SerializeTupleVariant = TupSer;
    type SerializeMap = Impossible<Node, Nope>;
    type SerializeStruct = TupSer;
    type SerializeStructVariant = TupSer;
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> R {
        raw(&[v as u8])
    }
    fn serialize_i8(self, v: i8) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_i16(self, v: i16) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_i32(self, v: i32) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_i64(self, v: i64) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_u8(self, v: u8) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_u16(self, v: u16) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_u32(self, v: u32) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_u64(self, v: u64) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_f32(self, v: f32) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_f64(self, v: f64) -> R {
        raw(&v.to_le_bytes())
    }
    fn serialize_char(self, v: char) -> R {
        raw(v.to_string().as_bytes())
    }
    fn serialize_str(self, v: &str) -> R {
        Ok(Node::Bytes(v.as_bytes().to_vec()))
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        Ok(Node::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> R {
        raw(&[0])
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        Ok(Node::Tuple(vec![("tag", Node::Raw(vec![1])), ("some", v.serialize(Ser)?)]))
    }
    fn serialize_unit(self) -> R {
        raw(&[])
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        raw(&[])
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R {
        raw(&i.to_le_bytes())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, name: &'static str, v: &T) -> R {
        Ok(Node::Tuple(vec![("tag", Node::Raw(i.to_le_bytes().to_vec())), (name, v.serialize(Ser)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqSer, Nope> {
        Ok(SeqSer(vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<TupSer, Nope> {
        Ok(TupSer(vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<TupSer, Nope> {
        Ok(TupSer(vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<TupSer, Nope> {
        Ok(TupSer(vec![("tag", Node::Raw(i.to_le_bytes().to_vec()))]))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Nope> {
        Err(Nope("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<TupSer, Nope> {
        Ok(TupSer(vec![]))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<TupSer, Nope> {
        Ok(TupSer(vec![("tag", Node::Raw(i.to_le_bytes().to_vec()))]))
    }
}
impl SerializeSeq for SeqSer {
    type Ok = Node;
    type Error = Nope;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Nope> {
        self.0.push(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> R {
        let bytes: Option<Vec<u8>> = self
            .0
            .iter()
            .map(|n| match n {
                Node::Raw(b) if b.len() == 1 => Some(b[0]),
                _ => None,
            })
            .collect();
        Ok(match bytes {
            Some(b) if b.len() == 32 => Node::Scalar(b),
            Some(b) if !b.is_empty() => Node::Bytes(b),
            _ => Node::Seq(self.0),
        })
    }
}
macro_rules! tup {
    ($t:ident, $f:ident) => {
        impl $t for TupSer {
            type Ok = Node;
            type Error = Nope;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Nope> {
                self.0.push(("", v.serialize(Ser)?));
                Ok(())
            }
            fn end(self) -> R {
                Ok(Node::Tuple(self.0))
            }
        }
    };
}
tup!(SerializeTuple, serialize_element);
tup!(SerializeTupleStruct, serialize_field);
tup!(SerializeTupleVariant, serialize_field);
macro_rules! stru {
    ($t:ident) => {
        impl $t for TupSer {
            type Ok = Node;
            type Error = Nope;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Nope> {
                self.0.push((k, v.serialize(Ser)?));
                Ok(())
            }
            fn end(self) -> R {
                Ok(Node::Tuple(self.0))
            }
        }
    };
}
stru!(SerializeStruct);
stru!(SerializeStructVariant);
