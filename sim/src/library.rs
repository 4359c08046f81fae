//! What the standard library's classes mean: the model that the sources in `dice-runtime/src/classes` are compared with, and the
//! library of every machine that does not run them.
use crate::world::*;
use std::rc::Rc;

/// How long strings and arrays may become; runs that go beyond are not used.
pub const SIZE_LIMIT: usize = 200;

pub const METHODS: &[(&str, &[&str])] = &[
    ("Any", &["to_string", "fields", "methods", "class_of"]),
    ("Bool", &["new"]),
    ("Int", &["new", "abs", "pow", "is_positive", "is_negative", "min", "max"]),
    (
        "Float",
        &[
            "new", "abs", "sqrt", "cbrt", "floor", "ceil", "round", "cos", "sin", "tan", "acos", "asin", "atan", "atan2", "cosh", "sinh", "tanh",
            "acosh", "asinh", "atanh", "log", "log2", "ln", "log10", "pow", "to_degrees", "to_radians", "min", "max", "is_finite", "is_infinite",
            "is_nan", "is_sign_negative", "is_sign_positive", "is_normal",
        ],
    ),
    ("Function", &["new"]),
    ("Array", &["new", "push", "pop", "length", "first", "filter", "map", "iter"]),
    ("String", &["new", "#add"]),
    ("Class", &["name", "base"]),
];

pub fn constants(class: &str) -> Vec<(&'static str, V)> {
    match class {
        "Int" => [
            ("MAX", i64::MAX),
            ("MIN", i64::MIN),
            ("I32_MAX", 2147483647),
            ("I32_MIN", -2147483648),
            ("U32_MAX", 4294967295),
            ("U32_MIN", 0),
            ("I16_MAX", 32767),
            ("I16_MIN", -32768),
            ("U16_MAX", 65535),
            ("U16_MIN", 0),
            ("I8_MAX", 127),
            ("I8_MIN", -128),
            ("U8_MAX", 255),
            ("U8_MIN", 0),
        ]
        .iter()
        .map(|(n, v)| (*n, V::Int(*v)))
        .collect(),
        "Float" => [
            ("MAX", f64::MAX),
            ("MIN", -f64::MAX),
            ("MIN_POSITIVE", f64::MIN_POSITIVE),
            ("EPSILON", f64::EPSILON),
            ("PI", std::f64::consts::PI),
            ("E", std::f64::consts::E),
            ("NAN", f64::NAN),
            ("INFINITY", 1.0 / 0.0),
            ("NEG_INFINITY", -1.0 / 0.0),
        ]
        .iter()
        .map(|(n, v)| (*n, V::Float(*v)))
        .collect(),
        _ => vec![],
    }
}

/// The text of a value.
pub fn text_of(w: &mut World, v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Unit => "Unit".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Float(f) => f.to_string(),
        V::Str(s) => s.to_string(),
        v => text_of_object(w, v),
    }
}

/// How the library writes objects and functions depends on parts of dice-runtime that do not compile; this is the simulation's way.
pub fn text_of_object(w: &mut World, v: &V) -> String {
    w.show(v).chars().take(60).collect()
}

fn text(s: String) -> R {
    if s.len() >= SIZE_LIMIT {
        return Err(Fail::Budget);
    }
    Ok(V::str(&s))
}

pub fn call(eng: &mut dyn Engine, class: &'static str, name: &'static str, this: V, args: &[V]) -> R {
    let first = args.first();
    let w = eng.w();
    Ok(match (class, name, &this) {
        ("Any", "to_string", this) => {
            let s = text_of(w, this);
            return text(s);
        }
        ("Any", "fields", this) => match this {
            V::Obj(_) | V::Class(_) | V::Arr(_) => {
                let names = w.fields_of(this).iter().map(|(k, _)| V::Str(k.clone())).collect();
                w.array(names)
            }
            _ => V::Null,
        },
        ("Any", "methods", this) => {
            let c = w.class_of(this).unwrap_or(w.any);
            let names = w.classes[c as usize].methods.keys().map(|k| V::Str(k.clone())).collect();
            w.array(names)
        }
        ("Any", "class_of", this) => V::Class(w.class_of(this).unwrap_or(w.any)),
        ("Class", "name", V::Class(c)) => V::Str(w.classes[*c as usize].name.clone()),
        ("Class", "base", V::Class(c)) => w.classes[*c as usize].base.map_or(V::Null, V::Class),
        ("Bool", "new", _) => match first {
            Some(V::Bool(b)) => V::Bool(*b),
            Some(V::Str(s)) if &**s == "true" => V::Bool(true),
            Some(V::Str(s)) if &**s == "false" => V::Bool(false),
            _ => V::Null,
        },
        ("Function", "new", _) => match first {
            Some(f @ V::Fn(_)) => f.clone(),
            _ => V::Null,
        },
        ("String", "new", _) => match first {
            Some(v) => {
                let s = text_of(w, v);
                return text(s);
            }
            None => V::Null,
        },
        ("String", "#add", V::Str(a)) => match first {
            Some(V::Str(b)) => return text(format!("{}{}", a, b)),
            _ => V::Null,
        },
        ("Int", "new", _) => match first {
            Some(V::Int(i)) => V::Int(*i),
            Some(V::Float(f)) => V::Int(*f as i64),
            Some(V::Str(s)) => s.parse().map_or(V::Null, V::Int),
            _ => V::Null,
        },
        ("Int", _, V::Int(a)) => match (name, first) {
            ("abs", _) => V::Int(if *a < 0 { a.wrapping_neg() } else { *a }),
            ("is_positive", _) => V::Bool(*a > 0),
            ("is_negative", _) => V::Bool(*a < 0),
            ("min", Some(V::Int(b))) => V::Int(if a < b { *a } else { *b }),
            ("max", Some(V::Int(b))) => V::Int(if a > b { *a } else { *b }),
            ("pow", Some(V::Int(b))) => V::Int(a.wrapping_pow(*b as u32)),
            _ => V::Null,
        },
        ("Float", "new", _) => match first {
            Some(V::Float(f)) => V::Float(*f),
            Some(V::Int(i)) => V::Float(*i as f64),
            Some(V::Str(s)) => s.parse().map_or(V::Null, V::Float),
            _ => V::Null,
        },
        ("Float", _, V::Float(a)) => float(name, *a, first),
        ("Array", "new", _) => w.array(args.to_vec()),
        ("Array", _, V::Arr(a)) => return array(eng, name, *a, first),
        _ => V::Null,
    })
}

fn float(name: &str, a: f64, b: Option<&V>) -> V {
    let two = |f: fn(f64, f64) -> f64| match b {
        Some(V::Float(b)) => V::Float(f(a, *b)),
        _ => V::Null,
    };
    V::Float(match name {
        "abs" => a.abs(),
        "sqrt" => a.sqrt(),
        "cbrt" => a.cbrt(),
        "floor" => a.floor(),
        "ceil" => a.ceil(),
        "round" => a.round(),
        "cos" => a.cos(),
        "sin" => a.sin(),
        "tan" => a.tan(),
        "acos" => a.acos(),
        "asin" => a.asin(),
        "atan" => a.atan(),
        "cosh" => a.cosh(),
        "sinh" => a.sinh(),
        "tanh" => a.tanh(),
        "acosh" => a.acosh(),
        "asinh" => a.asinh(),
        "atanh" => a.atanh(),
        "log2" => a.log2(),
        "ln" => a.ln(),
        "log10" => a.log10(),
        "to_degrees" => a.to_degrees(),
        "to_radians" => a.to_radians(),
        "atan2" => return two(f64::atan2),
        "log" => return two(f64::log),
        "pow" => return two(f64::powf),
        "min" => return two(f64::min),
        "max" => return two(f64::max),
        "is_finite" => return V::Bool(a.is_finite()),
        "is_infinite" => return V::Bool(a.is_infinite()),
        "is_nan" => return V::Bool(a.is_nan()),
        "is_sign_negative" => return V::Bool(a.is_sign_negative()),
        "is_sign_positive" => return V::Bool(a.is_sign_positive()),
        "is_normal" => return V::Bool(a.is_normal()),
        _ => return V::Null,
    })
}

fn array(eng: &mut dyn Engine, name: &str, a: Id, arg: Option<&V>) -> R {
    let w = eng.w();
    let items = &mut w.arrs[a as usize].items;
    Ok(match (name, arg) {
        ("push", Some(v)) => {
            if items.len() >= SIZE_LIMIT {
                return Err(Fail::Budget);
            }
            items.push(v.clone());
            V::Unit
        }
        ("pop", _) => items.pop().unwrap_or(V::Unit),
        ("length", _) => V::Int(items.len() as i64),
        ("iter", _) => {
            let f = w.native(Nat::ArrNext(a, Rc::new(std::cell::Cell::new(0))));
            let any = w.any;
            let o = w.object(any);
            w.set_field("next", &o, f)?;
            o
        }
        ("first", None) => items.first().cloned().unwrap_or(V::Null),
        ("first" | "filter" | "map", Some(f)) => {
            let mut out = Vec::new();
            for item in items.clone() {
                let r = match eng.guarded(f, &[item.clone()]) {
                    Err(e @ (Fail::Abort | Fail::Budget | Fail::Mon(_))) => return Err(e),
                    r => r,
                };
                match name {
                    "map" => out.push(r.unwrap_or(V::Null)),
                    "filter" if matches!(r, Ok(V::Bool(true))) => out.push(item),
                    "first" if matches!(r, Ok(V::Bool(true))) => return Ok(item),
                    _ => {}
                }
            }
            match name {
                "first" => V::Null,
                _ => eng.w().array(out),
            }
        }
        _ => V::Null,
    })
}
