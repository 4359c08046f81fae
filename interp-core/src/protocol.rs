use crate::value::Symbol;

/// The name of a protocol's method, as the interpreter's sources use it.
pub struct Name(&'static &'static str);

impl Name {
    pub fn get(&'static self) -> Symbol {
        Symbol::from(*self.0)
    }
}

impl From<&'static Name> for Symbol {
    fn from(n: &'static Name) -> Symbol {
        n.get()
    }
}

pub trait ProtocolSymbol {}

macro_rules! names {
    ($($module:ident: $($name:ident)*;)*) => {
        $(pub mod $module {
            $(pub static $name: super::Name = super::Name(&real_core::protocol::$module::$name);)*
        })*
    };
}

names! {
    operator: MUL DIV REM ADD SUB GT GTE LT LTE EQ NEQ RANGE_INCLUSIVE RANGE_EXCLUSIVE;
    module: EXPORT;
    class: SELF SUPER NEW;
    iterator: NEXT VALUE DONE ITER;
    object: TO_STRING ANY_CLASS MODULE_CLASS;
    error: IS_OK RESULT;
}
