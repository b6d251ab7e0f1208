//! A serializer that records what a value serializes as, in order:
//! ["i",8 bytes] integers, ["f"/"f4",bits] floats, ["t",0|1] booleans,
//! ["s",name] unit variants, ["b",bytes] texts, ["n"] none,
//! ["q",[..]] sequences, ["m",[[key,value]..]] maps and structures.
use serde::ser::*;
use std::fmt;

#[derive(Debug)]
pub struct Refused(String);
impl fmt::Display for Refused {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Refused {}
impl serde::ser::Error for Refused {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Refused(m.to_string())
    }
}

pub fn record<T: Serialize + ?Sized>(v: &T) -> Result<String, Refused> {
    v.serialize(Rec)
}

fn int(b: [u8; 8]) -> Result<String, Refused> {
    let mut s = String::from("[\"i\",");
    crate::jbytes(&mut s, &b);
    s.push(']');
    Ok(s)
}
fn bits(tag: &str, b: &[u8]) -> Result<String, Refused> {
    let mut s = format!("[\"{}\",", tag);
    crate::jbytes(&mut s, b);
    s.push(']');
    Ok(s)
}
fn name(n: &str) -> String {
    let mut s = String::new();
    crate::jstr(&mut s, n);
    s
}

pub struct Rec;
#[derive(Default)]
pub struct Many {
    items: Vec<String>,
    key: String,
    map: bool,
}
impl Many {
    fn done(self) -> Result<String, Refused> {
        Ok(format!(
            "[\"{}\",[{}]]",
            if self.map { "m" } else { "q" },
            self.items.join(",")
        ))
    }
}
fn seq() -> Result<Many, Refused> {
    Ok(Many::default())
}
fn map() -> Result<Many, Refused> {
    Ok(Many {
        map: true,
        ..Many::default()
    })
}

impl Serializer for Rec {
    type Ok = String;
    type Error = Refused;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = Many;
    type SerializeStruct = Many;
    type SerializeStructVariant = Many;
    fn serialize_bool(self, v: bool) -> Result<String, Refused> {
        Ok(format!("[\"t\",{}]", v as u8))
    }
    fn serialize_i8(self, v: i8) -> Result<String, Refused> {
        int((v as i64).to_le_bytes())
    }
    fn serialize_i16(self, v: i16) -> Result<String, Refused> {
        int((v as i64).to_le_bytes())
    }
    fn serialize_i32(self, v: i32) -> Result<String, Refused> {
        int((v as i64).to_le_bytes())
    }
    fn serialize_i64(self, v: i64) -> Result<String, Refused> {
        int(v.to_le_bytes())
    }
    fn serialize_u8(self, v: u8) -> Result<String, Refused> {
        int((v as u64).to_le_bytes())
    }
    fn serialize_u16(self, v: u16) -> Result<String, Refused> {
        int((v as u64).to_le_bytes())
    }
    fn serialize_u32(self, v: u32) -> Result<String, Refused> {
        int((v as u64).to_le_bytes())
    }
    fn serialize_u64(self, v: u64) -> Result<String, Refused> {
        int(v.to_le_bytes())
    }
    fn serialize_f32(self, v: f32) -> Result<String, Refused> {
        bits("f4", &v.to_le_bytes())
    }
    fn serialize_f64(self, v: f64) -> Result<String, Refused> {
        bits("f", &v.to_le_bytes())
    }
    fn serialize_char(self, v: char) -> Result<String, Refused> {
        bits("b", v.to_string().as_bytes())
    }
    fn serialize_str(self, v: &str) -> Result<String, Refused> {
        bits("b", v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<String, Refused> {
        let mut m = Many::default();
        for b in v {
            m.items.push(b.serialize(Rec)?);
        }
        m.done()
    }
    fn serialize_none(self) -> Result<String, Refused> {
        Ok("[\"n\"]".into())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<String, Refused> {
        v.serialize(Rec)
    }
    fn serialize_unit(self) -> Result<String, Refused> {
        Ok("[\"n\"]".into())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<String, Refused> {
        Ok("[\"n\"]".into())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<String, Refused> {
        Ok(format!("[\"s\",{}]", name(v)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<String, Refused> {
        v.serialize(Rec)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        n: &'static str,
        v: &T,
    ) -> Result<String, Refused> {
        Ok(format!("[\"m\",[[{},{}]]]", name(n), v.serialize(Rec)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Many, Refused> {
        seq()
    }
    fn serialize_tuple(self, _: usize) -> Result<Many, Refused> {
        seq()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Many, Refused> {
        seq()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Many, Refused> {
        seq()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Many, Refused> {
        map()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Many, Refused> {
        map()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Many, Refused> {
        map()
    }
}

macro_rules! seqlike {
    ($($tr:ident $f:ident),*) => {$(
        impl $tr for Many {
            type Ok = String;
            type Error = Refused;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Refused> {
                self.items.push(v.serialize(Rec)?);
                Ok(())
            }
            fn end(self) -> Result<String, Refused> {
                self.done()
            }
        }
    )*};
}
seqlike!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! structlike {
    ($($tr:ident),*) => {$(
        impl $tr for Many {
            type Ok = String;
            type Error = Refused;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Refused> {
                let v = v.serialize(Rec)?;
                self.items.push(format!("[{},{}]", name(k), v));
                Ok(())
            }
            fn end(self) -> Result<String, Refused> {
                self.done()
            }
        }
    )*};
}
structlike!(SerializeStruct, SerializeStructVariant);
impl SerializeMap for Many {
    type Ok = String;
    type Error = Refused;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Refused> {
        let j = serde_json::to_string(k).map_err(|e| Refused(e.to_string()))?;
        self.key = j;
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Refused> {
        let v = v.serialize(Rec)?;
        self.items.push(format!("[{},{}]", self.key, v));
        Ok(())
    }
    fn end(self) -> Result<String, Refused> {
        self.done()
    }
}
