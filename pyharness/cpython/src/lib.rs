//! Stand-in for rust-cpython 0.3: objects, errors, and the two macros a binding module uses.
//! A class becomes a table of methods that a test driver calls the way the interpreter would:
//! arguments are converted from objects, results into objects, errors are exceptions.
use std::any::Any;
use std::collections::HashMap;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Python<'p>(PhantomData<&'p ()>);

impl<'p> Python<'p> {
    pub fn acquire() -> Python<'static> {
        Python(PhantomData)
    }
    #[allow(non_snake_case)]
    pub fn None(self) -> PyObject {
        PyObject::none()
    }
    #[allow(non_snake_case)]
    pub fn NotImplemented(self) -> PyObject {
        PyObject::new(Value::NotImplemented)
    }
    #[allow(non_snake_case)]
    pub fn True(self) -> PyObject {
        PyObject::new(Value::Bool(true))
    }
    #[allow(non_snake_case)]
    pub fn False(self) -> PyObject {
        PyObject::new(Value::Bool(false))
    }
}

pub enum Value {
    None,
    NotImplemented,
    Str(String),
    Bool(bool),
    Int(i128),
    Float(f64),
    List(Vec<PyObject>),
    Instance(&'static str, HashMap<&'static str, Box<dyn Any>>),
}

#[derive(Clone)]
pub struct PyObject(pub Rc<Value>);

impl PyObject {
    pub fn none() -> PyObject {
        PyObject(Rc::new(Value::None))
    }
    pub fn new(v: Value) -> PyObject {
        PyObject(Rc::new(v))
    }
    pub fn as_str(&self) -> Option<&str> {
        match &*self.0 {
            Value::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &*self.0 {
            Value::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn as_int(&self) -> Option<i128> {
        match &*self.0 {
            Value::Int(i) => Some(*i),
            _ => None,
        }
    }
    pub fn extract<'a, T: FromPyObject<'a>>(&'a self, py: Python) -> PyResult<T> {
        T::extract(py, self)
    }
    pub fn cast_as<'a, T>(&'a self, py: Python) -> PyResult<&'a T>
    where
        &'a T: FromPyObject<'a>,
    {
        <&'a T as FromPyObject<'a>>::extract(py, self)
    }
    pub fn type_name(&self) -> &'static str {
        match &*self.0 {
            Value::None => "NoneType",
            Value::NotImplemented => "NotImplementedType",
            Value::Str(_) => "str",
            Value::Bool(_) => "bool",
            Value::Int(_) => "int",
            Value::Float(_) => "float",
            Value::List(_) => "list",
            Value::Instance(n, _) => n,
        }
    }
}

/// As in rust-cpython, where it carries the methods of objects.
pub trait ObjectProtocol {}
impl<T: PythonObject> ObjectProtocol for T {}

pub struct PyType;
pub type PyString = PyObject;
pub type PyTuple = PyObject;
pub type PyDict = PyObject;

#[derive(Debug, Clone)]
pub struct PyErr {
    pub kind: &'static str,
    pub text: String,
}
pub type PyResult<T> = Result<T, PyErr>;

pub mod exc {
    pub trait Exception {
        const NAME: &'static str;
    }
    macro_rules! exceptions {
        ($($n:ident)*) => { $(pub struct $n; impl Exception for $n { const NAME: &'static str = stringify!($n); })* };
    }
    exceptions! { BaseException Exception_ ArithmeticError AssertionError AttributeError IOError OSError ImportError IndexError KeyError LookupError
        NotImplementedError OverflowError RuntimeError StopIteration SyntaxError SystemError TypeError UnicodeDecodeError ValueError ZeroDivisionError }
}

impl PyErr {
    pub fn new<T: exc::Exception, V: ToPyObject>(_py: Python, v: V) -> PyErr {
        let o = v.to_py_object(_py);
        PyErr { kind: T::NAME, text: o.as_str().unwrap_or("").to_string() }
    }
    pub fn type_error(text: &str) -> PyErr {
        PyErr { kind: "TypeError", text: text.to_string() }
    }
}

pub trait PyClone: Sized {
    fn clone_ref(&self, py: Python) -> Self;
}
impl PyClone for PyObject {
    fn clone_ref(&self, _py: Python) -> PyObject {
        self.clone()
    }
}

pub trait PythonObject: Sized {
    fn as_object(&self) -> &PyObject;
    fn into_object(self) -> PyObject;
}
impl PythonObject for PyObject {
    fn as_object(&self) -> &PyObject {
        self
    }
    fn into_object(self) -> PyObject {
        self
    }
}

// ---- conversions ----

pub trait ToPyObject {
    fn to_py_object(&self, py: Python) -> PyObject;
    fn into_py_object(self, py: Python) -> PyObject
    where
        Self: Sized,
    {
        self.to_py_object(py)
    }
}

macro_rules! to_py {
    ($($t:ty => |$x:ident| $e:expr;)*) => { $(impl ToPyObject for $t { fn to_py_object(&self, _py: Python) -> PyObject { let $x = self; PyObject::new($e) } })* };
}
to_py! {
    str => |x| Value::Str(x.to_string());
    String => |x| Value::Str(x.clone());
    bool => |x| Value::Bool(*x);
    u8 => |x| Value::Int(*x as i128);
    u16 => |x| Value::Int(*x as i128);
    u32 => |x| Value::Int(*x as i128);
    u64 => |x| Value::Int(*x as i128);
    usize => |x| Value::Int(*x as i128);
    i8 => |x| Value::Int(*x as i128);
    i16 => |x| Value::Int(*x as i128);
    i32 => |x| Value::Int(*x as i128);
    i64 => |x| Value::Int(*x as i128);
    isize => |x| Value::Int(*x as i128);
    f64 => |x| Value::Float(*x);
    () => |_x| Value::None;
}
impl ToPyObject for PyObject {
    fn to_py_object(&self, _py: Python) -> PyObject {
        self.clone()
    }
}
impl<'a, T: ToPyObject + ?Sized> ToPyObject for &'a T {
    fn to_py_object(&self, py: Python) -> PyObject {
        (**self).to_py_object(py)
    }
}
impl<'a> ToPyObject for std::borrow::Cow<'a, str> {
    fn to_py_object(&self, py: Python) -> PyObject {
        (**self).to_py_object(py)
    }
}
impl<T: ToPyObject> ToPyObject for Option<T> {
    fn to_py_object(&self, py: Python) -> PyObject {
        match self {
            Some(x) => x.to_py_object(py),
            None => PyObject::none(),
        }
    }
}
impl<T: ToPyObject> ToPyObject for Vec<T> {
    fn to_py_object(&self, py: Python) -> PyObject {
        PyObject::new(Value::List(self.iter().map(|x| x.to_py_object(py)).collect()))
    }
}

pub trait FromPyObject<'a>: Sized {
    fn extract(py: Python, o: &'a PyObject) -> PyResult<Self>;
}
impl<'a> FromPyObject<'a> for &'a str {
    fn extract(_py: Python, o: &'a PyObject) -> PyResult<&'a str> {
        o.as_str().ok_or_else(|| PyErr::type_error("expected str"))
    }
}
impl<'a> FromPyObject<'a> for String {
    fn extract(_py: Python, o: &'a PyObject) -> PyResult<String> {
        o.as_str().map(|s| s.to_string()).ok_or_else(|| PyErr::type_error("expected str"))
    }
}
impl<'a> FromPyObject<'a> for std::borrow::Cow<'a, str> {
    fn extract(py: Python, o: &'a PyObject) -> PyResult<Self> {
        <&str>::extract(py, o).map(std::borrow::Cow::Borrowed)
    }
}
impl<'a> FromPyObject<'a> for bool {
    fn extract(_py: Python, o: &'a PyObject) -> PyResult<bool> {
        o.as_bool().ok_or_else(|| PyErr::type_error("expected bool"))
    }
}
impl<'a> FromPyObject<'a> for &'a PyObject {
    fn extract(_py: Python, o: &'a PyObject) -> PyResult<&'a PyObject> {
        Ok(o)
    }
}
impl<'a> FromPyObject<'a> for PyObject {
    fn extract(_py: Python, o: &'a PyObject) -> PyResult<PyObject> {
        Ok(o.clone())
    }
}
macro_rules! from_int {
    ($($t:ty)*) => { $(impl<'a> FromPyObject<'a> for $t {
        fn extract(_py: Python, o: &'a PyObject) -> PyResult<$t> {
            match &*o.0 {
                Value::Int(i) if *i >= <$t>::min_value() as i128 && *i <= <$t>::max_value() as i128 => Ok(*i as $t),
                _ => Err(PyErr::type_error("expected int")),
            }
        }
    })* };
}
from_int! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize }
impl<'a, T: FromPyObject<'a>> FromPyObject<'a> for Option<T> {
    fn extract(py: Python, o: &'a PyObject) -> PyResult<Self> {
        match &*o.0 {
            Value::None => Ok(None),
            _ => T::extract(py, o).map(Some),
        }
    }
}
impl<'a, T: FromPyObject<'a>> FromPyObject<'a> for Vec<T> {
    fn extract(py: Python, o: &'a PyObject) -> PyResult<Self> {
        match &*o.0 {
            Value::List(xs) => xs.iter().map(|x| T::extract(py, x)).collect(),
            _ => Err(PyErr::type_error("expected list")),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum CompareOp {
    Lt,
    Le,
    Eq,
    Ne,
    Gt,
    Ge,
}
pub const OPS: [CompareOp; 6] = [CompareOp::Lt, CompareOp::Le, CompareOp::Eq, CompareOp::Ne, CompareOp::Gt, CompareOp::Ge];
impl ToPyObject for CompareOp {
    fn to_py_object(&self, _py: Python) -> PyObject {
        PyObject::new(Value::Int(*self as i128))
    }
}
impl<'a> FromPyObject<'a> for CompareOp {
    fn extract(_py: Python, o: &'a PyObject) -> PyResult<CompareOp> {
        match &*o.0 {
            Value::Int(i) if *i >= 0 && *i < 6 => Ok(OPS[*i as usize]),
            _ => Err(PyErr::type_error("expected a comparison")),
        }
    }
}

// ---- classes and modules ----

pub struct Method {
    pub name: &'static str,
    pub call: fn(Python, Option<&PyObject>, &[PyObject]) -> PyResult<PyObject>,
}

pub trait PyClassInfo {
    const NAME: &'static str;
    fn methods() -> Vec<Method>;
}

pub struct Class {
    pub name: &'static str,
    pub methods: Vec<Method>,
}

impl Class {
    pub fn call(&self, name: &str, slf: Option<&PyObject>, args: &[PyObject]) -> PyResult<PyObject> {
        match self.methods.iter().find(|m| m.name == name) {
            Some(m) => (m.call)(Python::acquire(), slf, args),
            None => Err(PyErr { kind: "AttributeError", text: name.to_string() }),
        }
    }
    pub fn has(&self, name: &str) -> bool {
        self.methods.iter().any(|m| m.name == name)
    }
}

#[derive(Default)]
pub struct PyModule {
    pub classes: RefCell<Vec<Class>>,
    pub items: RefCell<HashMap<String, PyObject>>,
}

impl PyModule {
    pub fn add<V: ToPyObject>(&self, py: Python, name: &str, v: V) -> PyResult<()> {
        self.items.borrow_mut().insert(name.to_string(), v.to_py_object(py));
        Ok(())
    }
    pub fn add_class<T: PyClassInfo>(&self, _py: Python) -> PyResult<()> {
        self.classes.borrow_mut().push(Class { name: T::NAME, methods: T::methods() });
        Ok(())
    }
}

/// The next argument of a call.
pub fn next_arg<'a>(it: &mut std::slice::Iter<'a, PyObject>) -> PyResult<&'a PyObject> {
    it.next().ok_or_else(|| PyErr::type_error("missing argument"))
}
pub fn no_more(it: &mut std::slice::Iter<PyObject>) -> PyResult<()> {
    match it.next() {
        None => Ok(()),
        Some(_) => Err(PyErr::type_error("too many arguments")),
    }
}
pub fn this(o: Option<&PyObject>) -> PyResult<&PyObject> {
    o.ok_or_else(|| PyErr::type_error("missing self"))
}

#[macro_export]
macro_rules! py_module_initializer {
    ($name:ident, $two:ident, $three:ident, |$py:ident, $m:ident| $body:expr) => {
        #[no_mangle]
        #[allow(unused_variables)]
        pub fn __vpy_module_init($py: $crate::Python, $m: &$crate::PyModule) -> $crate::PyResult<()> {
            $body
        }
    };
}

#[macro_export]
macro_rules! py_fn {
    ($($t:tt)*) => {
        $crate::PyObject::none()
    };
}

#[macro_export]
macro_rules! py_class {
    ($(#[$m:meta])* class $c:ident |$py:ident| { $($body:tt)* }) => { $crate::__py_class! { [$c $py] [] [] $($body)* } };
    ($(#[$m:meta])* pub class $c:ident |$py:ident| { $($body:tt)* }) => { $crate::__py_class! { [$c $py] [] [] $($body)* } };
}

#[macro_export]
#[doc(hidden)]
macro_rules! __py_class {
    // ---- fields ----
    ([$c:ident $py:ident] [$($data:tt)*] [$($defs:tt)*] data $n:ident : $t:ty; $($rest:tt)*) => {
        $crate::__py_class! { [$c $py] [$($data)* {$n: $t}] [$($defs)*] $($rest)* }
    };
    // ---- constructor ----
    ([$c:ident $py:ident] [$($data:tt)*] [$($defs:tt)*]
        $(#[$m:meta])* def __new__($cls:ident $(, $a:ident : $t:ty $(= $d:expr)?)* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        impl $c {
            #[allow(unused_variables)]
            pub fn __new__($cls: &$crate::PyType, $py: $crate::Python, $($a: $t),*) -> $r $b
        }
        $crate::__py_class! { [$c $py] [$($data)*] [$($defs)* {
            #[allow(unused_mut, unused_variables)]
            fn call(py: $crate::Python, slf: Option<&$crate::PyObject>, args: &[$crate::PyObject]) -> $crate::PyResult<$crate::PyObject> {
                let mut it = args.iter();
                $(let $a = <$t as $crate::FromPyObject>::extract(py, $crate::next_arg(&mut it)?)?;)*
                $crate::no_more(&mut it)?;
                Ok($crate::ToPyObject::to_py_object(&$c::__new__(&$crate::PyType, py, $($a),*)?, py))
            }
            $crate::Method { name: "__new__", call }
        }] $($rest)* }
    };
    // ---- methods ----
    ([$c:ident $py:ident] [$($data:tt)*] [$($defs:tt)*]
        $(#[$m:meta])* def $n:ident(&$slf:ident $(, $a:ident : $t:ty $(= $d:expr)?)* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        impl $c {
            #[allow(unused_variables)]
            pub fn $n(&$slf, $py: $crate::Python, $($a: $t),*) -> $r $b
        }
        $crate::__py_class! { [$c $py] [$($data)*] [$($defs)* {
            #[allow(unused_mut, unused_variables)]
            fn call(py: $crate::Python, slf: Option<&$crate::PyObject>, args: &[$crate::PyObject]) -> $crate::PyResult<$crate::PyObject> {
                let me = <&$c as $crate::FromPyObject>::extract(py, $crate::this(slf)?)?;
                let mut it = args.iter();
                $(let $a = <$t as $crate::FromPyObject>::extract(py, $crate::next_arg(&mut it)?)?;)*
                $crate::no_more(&mut it)?;
                Ok($crate::ToPyObject::to_py_object(&$c::$n(me, py, $($a),*)?, py))
            }
            $crate::Method { name: stringify!($n), call }
        }] $($rest)* }
    };
    // ---- an operand left untyped is any object ----
    ([$c:ident $py:ident] [$($data:tt)*] [$($defs:tt)*]
        $(#[$m:meta])* def $n:ident(&$slf:ident, $o:ident $(, $a:ident : $t:ty $(= $d:expr)?)* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        $crate::__py_class! { [$c $py] [$($data)*] [$($defs)*] def $n(&$slf, $o: &$crate::PyObject $(, $a : $t $(= $d)?)*) -> $r $b $($rest)* }
    };
    // ---- methods without self ----
    ([$c:ident $py:ident] [$($data:tt)*] [$($defs:tt)*]
        $(#[$m:meta])* @staticmethod def $n:ident($($a:ident : $t:ty $(= $d:expr)?),* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        impl $c {
            #[allow(unused_variables)]
            pub fn $n($py: $crate::Python, $($a: $t),*) -> $r $b
        }
        $crate::__py_class! { [$c $py] [$($data)*] [$($defs)*] $($rest)* }
    };
    ([$c:ident $py:ident] [$($data:tt)*] [$($defs:tt)*]
        $(#[$m:meta])* @classmethod def $n:ident($cls:ident $(, $a:ident : $t:ty $(= $d:expr)?)* $(,)?) -> $r:ty $b:block $($rest:tt)*) => {
        impl $c {
            #[allow(unused_variables)]
            pub fn $n($cls: &$crate::PyType, $py: $crate::Python, $($a: $t),*) -> $r $b
        }
        $crate::__py_class! { [$c $py] [$($data)*] [$($defs)*] $($rest)* }
    };
    // ---- done ----
    ([$c:ident $py:ident] [$({$dn:ident: $dt:ty})*] [$($def:tt)*]) => {
        #[derive(Clone)]
        #[repr(transparent)]
        pub struct $c($crate::PyObject);

        #[allow(dead_code)]
        impl $c {
            pub fn create_instance(_py: $crate::Python, $($dn: $dt),*) -> $crate::PyResult<$c> {
                let mut m: std::collections::HashMap<&'static str, Box<dyn std::any::Any>> = std::collections::HashMap::new();
                $(m.insert(stringify!($dn), Box::new($dn));)*
                Ok($c($crate::PyObject::new($crate::Value::Instance(stringify!($c), m))))
            }
            $(
                pub fn $dn<'a>(&'a self, _py: $crate::Python<'a>) -> &'a $dt {
                    match &*(self.0).0 {
                        $crate::Value::Instance(_, m) => m[stringify!($dn)].downcast_ref::<$dt>().unwrap(),
                        _ => unreachable!(),
                    }
                }
            )*
        }

        impl $crate::ToPyObject for $c {
            fn to_py_object(&self, _py: $crate::Python) -> $crate::PyObject {
                self.0.clone()
            }
        }
        impl $crate::PyClone for $c {
            fn clone_ref(&self, _py: $crate::Python) -> $c {
                self.clone()
            }
        }
        impl $crate::PythonObject for $c {
            fn as_object(&self) -> &$crate::PyObject {
                &self.0
            }
            fn into_object(self) -> $crate::PyObject {
                self.0
            }
        }
        impl<'a> $crate::FromPyObject<'a> for &'a $c {
            fn extract(_py: $crate::Python, o: &'a $crate::PyObject) -> $crate::PyResult<&'a $c> {
                match &*o.0 {
                    // a transparent wrapper, as in rust-cpython
                    $crate::Value::Instance(n, _) if *n == stringify!($c) => Ok(unsafe { &*(o as *const $crate::PyObject as *const $c) }),
                    _ => Err($crate::PyErr::type_error(concat!("expected ", stringify!($c)))),
                }
            }
        }
        impl<'a> $crate::FromPyObject<'a> for $c {
            fn extract(py: $crate::Python, o: &'a $crate::PyObject) -> $crate::PyResult<$c> {
                <&$c as $crate::FromPyObject>::extract(py, o).map(|x| x.clone())
            }
        }
        impl $crate::PyClassInfo for $c {
            const NAME: &'static str = stringify!($c);
            fn methods() -> Vec<$crate::Method> {
                vec![$($def),*]
            }
        }
    };
}
