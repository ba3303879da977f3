//! Stand-ins for what executor/format.rs asks of the interpreter: values,
//! strings with an encoding, hashes, errors. Conversions answer for the
//! built-in types only and refuse everything else.
use crate::num::BigInt;
use std::borrow::Cow;
use std::collections::HashMap;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Debug, Clone)]
pub struct MonorubyErr(pub &'static str);
#[allow(dead_code)]
impl MonorubyErr {
    pub fn argumenterr(_: impl ToString) -> Self {
        Self("arg")
    }
    pub fn rangeerr(_: impl ToString) -> Self {
        Self("range")
    }
    pub fn typeerr(_: impl ToString) -> Self {
        Self("type")
    }
    pub fn keyerr_with(_: impl ToString, _: Value, _: Value) -> Self {
        Self("key")
    }
    pub fn method_not_found(_: &Store, _: IdentId, _: Value) -> Self {
        Self("nomethod")
    }
    pub fn encoding_compatibility_error_with_store(_: &Store, _: impl ToString) -> Self {
        Self("compat")
    }
    pub fn incompatible_encoding(_: &Store, _: Encoding, _: Encoding) -> Self {
        Self("compat")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IdentId(pub u32);
#[allow(dead_code)]
impl IdentId {
    pub const TO_S: IdentId = IdentId(1);
    pub const INSPECT: IdentId = IdentId(2);
    pub fn get_id(name: &str) -> Self {
        IdentId(if name == "$DEBUG" { 8 } else { 9 })
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FuncId(pub u32);

pub struct Store;
pub struct Globals {
    pub store: Store,
    /// `$DEBUG`
    pub debug: bool,
}
impl Globals {
    /// Integers and strings answer `to_s` and `inspect`, the rest does not.
    pub fn check_method(&self, val: Value, name: IdentId) -> Option<FuncId> {
        match val {
            Value::Int(_) | Value::Str(_) => Some(FuncId(name.0)),
            _ => None,
        }
    }
    pub fn get_gvar(&self, name: IdentId) -> Option<Value> {
        (name.0 == 8 && self.debug).then(|| Value::Sym("true"))
    }
}
pub struct Executor;
impl Executor {
    pub fn invoke_func_inner(
        &mut self,
        _: &mut Globals,
        func: FuncId,
        val: Value,
        _: &[Value],
        _: Option<()>,
        _: Option<()>,
    ) -> Result<Value> {
        Ok(match (val, func.0) {
            (Value::Int(i), _) => Value::text(&i.to_string()),
            (Value::Str(s), 2) => Value::text(&format!("\"{}\"", String::from_utf8_lossy(s.as_bytes()))),
            _ => val,
        })
    }
    pub fn ruby_warn(&mut self, _: &mut Globals, _: &str) -> Result<()> {
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Value {
    Nil,
    Int(&'static BigInt),
    Float(f64),
    Str(&'static RStringInner),
    Hash(Hashmap),
    Sym(&'static str),
}
#[allow(dead_code)]
pub enum RV {
    Fixnum(i64),
    Other,
}
pub enum IntegerBase {
    Fixnum(i64),
    BigInt(BigInt),
}
#[allow(dead_code)]
impl Value {
    pub fn int(b: BigInt) -> Self {
        Value::Int(Box::leak(Box::new(b)))
    }
    pub fn text(s: &str) -> Self {
        Value::string_from_inner(RStringInner::new(s.as_bytes(), Encoding::Utf8))
    }
    pub fn string_from_inner(inner: RStringInner) -> Self {
        Value::Str(Box::leak(Box::new(inner)))
    }
    pub fn symbol_from_str(s: &str) -> Self {
        Value::Sym(Box::leak(s.to_string().into_boxed_str()))
    }
    pub fn unpack(&self) -> RV {
        match self {
            Value::Int(i) => match i.to_fixnum() {
                Some(i) => RV::Fixnum(i),
                None => RV::Other,
            },
            _ => RV::Other,
        }
    }
    pub fn is_rstring_inner(&self) -> Option<&RStringInner> {
        match self {
            Value::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn is_str(&self) -> Option<&str> {
        match self {
            Value::Str(s) => std::str::from_utf8(s.as_bytes()).ok(),
            _ => None,
        }
    }
    pub fn try_hash_ty(&self) -> Option<Hashmap> {
        match self {
            Value::Hash(h) => Some(*h),
            _ => None,
        }
    }
    pub fn is_nil(&self) -> bool {
        matches!(self, Value::Nil)
    }
    pub fn is_integer(&self) -> bool {
        matches!(self, Value::Int(_))
    }
    pub fn as_bool(&self) -> bool {
        !self.is_nil()
    }
    pub fn coerce_to_integer(&self, _: &mut Executor, _: &mut Globals) -> Result<IntegerBase> {
        match self {
            Value::Int(i) => Ok(match i.to_fixnum() {
                Some(i) => IntegerBase::Fixnum(i),
                None => IntegerBase::BigInt((*i).clone()),
            }),
            _ => Err(MonorubyErr::typeerr("")),
        }
    }
    /// Integers only as far as a Float holds them exactly.
    pub fn coerce_to_float(&self, _: &mut Executor, _: &mut Globals) -> Result<f64> {
        match self {
            Value::Float(f) => Ok(*f),
            Value::Int(i) => match i.to_fixnum() {
                Some(i) if i.unsigned_abs() <= 1 << 53 => Ok(i as f64),
                _ => Err(MonorubyErr::typeerr("")),
            },
            _ => Err(MonorubyErr::typeerr("")),
        }
    }
    pub fn coerce_to_char(&self, _: &mut Executor, _: &mut Globals) -> Result<Option<char>> {
        Err(MonorubyErr::typeerr(""))
    }
    pub fn coerce_to_s(&self, _: &mut Executor, _: &mut Globals) -> Result<String> {
        match self {
            Value::Int(i) => Ok(i.to_string()),
            Value::Str(s) => Ok(String::from_utf8_lossy(s.as_bytes()).into_owned()),
            _ => Err(MonorubyErr("nomethod")),
        }
    }
    pub fn to_s(&self, _: &Store) -> String {
        match self {
            Value::Int(i) => i.to_string(),
            Value::Str(s) => String::from_utf8_lossy(s.as_bytes()).into_owned(),
            _ => "?".into(),
        }
    }
    pub fn inspect(&self, store: &Store) -> String {
        self.to_s(store)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Hashmap(pub &'static HashMap<String, Value>);
impl From<Hashmap> for Value {
    fn from(h: Hashmap) -> Self {
        Value::Hash(h)
    }
}
impl Hashmap {
    pub fn get(&self, key: Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Value>> {
        Ok(match key {
            Value::Sym(s) => self.0.get(s).copied(),
            _ => None,
        })
    }
    /// a hash without a default
    pub fn index(&self, vm: &mut Executor, globals: &mut Globals, key: Value) -> Result<Value> {
        Ok(self.get(key, vm, globals)?.unwrap_or(Value::Nil))
    }
    pub fn iter(&self) -> impl Iterator<Item = (Value, Value)> + '_ {
        self.0.iter().map(|(k, v)| (Value::symbol_from_str(k), *v))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[allow(dead_code)]
pub enum Encoding {
    Utf8,
    Ascii8,
    UsAscii,
    EucJp,
    Sjis(u8),
    Iso8859(u8),
    NamedByte(u8),
    Utf16,
}
impl Encoding {
    pub fn is_ascii_compatible(&self) -> bool {
        *self != Encoding::Utf16
    }
    pub fn is_byte_oriented(&self) -> bool {
        !matches!(self, Encoding::Utf8 | Encoding::UsAscii | Encoding::Utf16)
    }
    pub fn name(&self) -> &'static str {
        "?"
    }
}
#[derive(Clone, Debug)]
pub struct RStringInner {
    bytes: Vec<u8>,
    enc: Encoding,
}
impl RStringInner {
    pub fn new(bytes: &[u8], enc: Encoding) -> Self {
        Self { bytes: bytes.to_vec(), enc }
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes
    }
    pub fn encoding(&self) -> Encoding {
        self.enc
    }
    pub fn set_encoding(&mut self, enc: Encoding) {
        self.enc = enc;
    }
    pub fn is_valid_encoding(&self) -> bool {
        self.enc != Encoding::Utf8 || std::str::from_utf8(&self.bytes).is_ok()
    }
    pub fn compatible_encoding(&self, other: &Self) -> Option<Encoding> {
        if self.enc == other.enc || other.bytes.is_ascii() {
            Some(self.enc)
        } else if self.bytes.is_ascii() {
            Some(other.enc)
        } else {
            None
        }
    }
    pub fn regex_view(&self) -> Result<Cow<'_, str>> {
        std::str::from_utf8(&self.bytes).map(Cow::Borrowed).map_err(|_| MonorubyErr("arg"))
    }
    pub fn from_mapped_utf8(s: &str, enc: Encoding) -> Self {
        Self { bytes: s.chars().map(|c| c as u32 as u8).collect(), enc }
    }
    pub fn from_encoding_scanned(b: &[u8], enc: Encoding) -> Self {
        Self::new(b, enc)
    }
}
pub fn map_bytes_to_utf8(b: &[u8]) -> String {
    b.iter().map(|b| *b as char).collect()
}
pub fn eucjp_char_width(_: &[u8]) -> Option<usize> {
    None
}
pub fn sjis_char_width(_: &[u8]) -> Option<usize> {
    None
}
