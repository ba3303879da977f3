//! An executor with a method and the frame that runs in it, whose `require` is played by the harness.
use super::*;
mod constants;

#[derive(Clone, Copy)]
pub struct Frame(pub FuncId, pub Value);
impl Frame {
    pub fn lfp(&self) -> Frame {
        *self
    }
    pub fn func_id(&self) -> FuncId {
        self.0
    }
    pub fn self_val(&self) -> Value {
        self.1
    }
}
/// What reading a constant comes to: a value, nothing, or an error.
pub type Answer = Result<Option<Value>>;

/// How to read, and what a required file does: per feature 0 it raises, 1
/// nothing, 2 it sets the constant of `place`, 3 the same after reading it the
/// same way.
#[derive(Clone)]
pub struct Reading {
    pub kind: i64,
    pub start: ClassId,
    pub name: IdentId,
    pub plan: [i64; 3],
    pub place: ClassId,
    pub value: i64,
}
pub struct Executor {
    /// The method, and the frame that runs, which may be evaluated code.
    pub func: FuncId,
    pub frame: FuncId,
    pub base: Option<Value>,
    pub reading: Option<Reading>,
    pub log: Vec<i64>,
}
pub const FEATURES: [&str; 3] = ["/nowhere/f1.rb", "/nowhere/f2", "/nowhere/f1"];

impl Executor {
    pub fn cfp(&self) -> Frame {
        Frame(self.frame, Value::nil())
    }
    pub fn method_func_id(&self) -> FuncId {
        self.func
    }
    pub unsafe fn get_slot(&self, _: SlotId) -> Option<Value> {
        self.base
    }
    pub fn inc_require_level(&mut self) -> usize {
        0
    }
    pub fn dec_require_level(&mut self) {}
    pub fn invoke_method_inner(
        &mut self,
        globals: &mut Globals,
        name: IdentId,
        _: Value,
        args: &[Value],
        _: Option<Proc>,
        _: Option<Proc>,
    ) -> Result<Value> {
        assert_eq!(name.to_string(), "require");
        let file = args[0].try_symbol().unwrap().to_string();
        let f = FEATURES.iter().position(|x| *x == file).unwrap();
        self.log.push(f as i64 + 1);
        let r = self.reading.clone().unwrap();
        match r.plan[f] {
            0 => return Err(MonorubyErr::runtimeerr("load")),
            1 => {}
            k => {
                if k == 3 {
                    let v = self.read(globals, &r)?;
                    self.log.push(100 + v.map_or(0, |v| v.try_fixnum().unwrap()));
                }
                globals.set_constant(r.place, r.name, Value::fixnum(r.value));
            }
        }
        Ok(Value::nil())
    }
    /// 0 the constant of one class, 1 in a lexical scope, 2 with the class
    /// that has it, 3 qualified.
    pub fn read(&mut self, globals: &mut Globals, r: &Reading) -> Answer {
        let m = globals.get_module(r.start);
        match r.kind {
            0 => self.get_constant(globals, r.start, r.name),
            1 => self.search_constant_no_missing(globals, r.name, self.func),
            2 => match self.get_constant_superclass_with_class(globals, m, r.name) {
                Ok((v, c)) => {
                    self.log.push(1000 + c.u32() as i64);
                    Ok(Some(v))
                }
                Err(e) if matches!(e.kind, MonorubyErrKind::Name(..)) => Ok(None),
                Err(e) => Err(e),
            },
            _ => self.get_constant_superclass_qualified(globals, m, r.name),
        }
    }
}
impl Warned for Executor {
    fn warned(&mut self) {
        self.log.push(-1);
    }
}
