//! A stand-in for the part of neon 0.1 the editor backends use.  JavaScript values are JSON,
//! instances of declared classes, classes, or callbacks known by a number.
use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

#[derive(Clone)]
pub enum Val {
    Json(serde_json::Value),
    Object(TypeId, Rc<RefCell<Box<dyn Any>>>),
    Class(TypeId),
    Callback(u64),
}

thread_local! {
    /// callbacks called so far
    pub static CALLED: RefCell<Vec<(u64, Result<serde_json::Value, String>)>> = RefCell::new(Vec::new());
}

pub mod mem {
    use super::*;
    pub struct Handle<'a, T> {
        pub val: Val,
        pub marker: PhantomData<(&'a (), fn() -> T)>,
    }
    impl<'a, T> Clone for Handle<'a, T> {
        fn clone(&self) -> Self {
            Handle { val: self.val.clone(), marker: PhantomData }
        }
    }
    impl<'a, T> Handle<'a, T> {
        pub fn of(val: Val) -> Self {
            Handle { val, marker: PhantomData }
        }
        pub fn of_json(v: serde_json::Value) -> Self {
            Self::of(Val::Json(v))
        }
        pub fn json(&self) -> Option<serde_json::Value> {
            match &self.val {
                Val::Json(v) => Some(v.clone()),
                _ => None,
            }
        }
        pub fn upcast(&self) -> Handle<'a, js::JsValue> {
            Handle::of(self.val.clone())
        }
        pub fn check<U: js::Value>(&self) -> vm::VmResult<Handle<'a, U>> {
            if U::is(&self.val) {
                Ok(Handle::of(self.val.clone()))
            } else {
                Err(vm::Throw("TypeError: unexpected type of argument".into()))
            }
        }
    }
    impl<'a> Handle<'a, js::JsString> {
        pub fn value(&self) -> String {
            match &self.val {
                Val::Json(serde_json::Value::String(s)) => s.clone(),
                _ => unreachable!(),
            }
        }
    }
}

pub mod vm {
    use super::*;
    #[derive(Debug)]
    pub struct Throw(pub String);
    pub type VmResult<T> = Result<T, Throw>;
    pub type JsResult<'a, T> = VmResult<mem::Handle<'a, T>>;
    pub trait This {}
    impl This for js::JsObject {}
    pub struct Arguments<T> {
        pub args: Vec<Val>,
        pub marker: PhantomData<T>,
    }
    impl<T: This> Arguments<T> {
        pub fn len(&self) -> i32 {
            self.args.len() as i32
        }
        pub fn require<'b, S: scope::Scope<'b>>(&self, _: &mut S, i: i32) -> JsResult<'b, js::JsValue> {
            match self.args.get(i as usize) {
                Some(v) => Ok(mem::Handle::of(v.clone())),
                None => Err(Throw("TypeError: not enough arguments".into())),
            }
        }
    }
    pub struct FunctionCall<'a, T> {
        pub scope: &'a mut scope::RootScope<'a>,
        pub arguments: Arguments<T>,
    }
    pub type Call<'a> = FunctionCall<'a, js::JsObject>;
    pub trait Lock: Sized {
        type Internals;
        fn grab<F, R>(&mut self, f: F) -> R
        where
            F: FnOnce(&mut Self::Internals) -> R + Send,
            R: Send;
    }
    impl<'a, C: js::class::Class> Lock for mem::Handle<'a, C> {
        type Internals = C::Internals;
        fn grab<F, R>(&mut self, f: F) -> R
        where
            F: FnOnce(&mut C::Internals) -> R + Send,
            R: Send,
        {
            match &self.val {
                Val::Object(_, o) => f(o.borrow_mut().downcast_mut::<C::Internals>().unwrap()),
                _ => unreachable!(),
            }
        }
    }
    pub fn call(args: Vec<Val>, f: impl for<'a> FnOnce(Call<'a>) -> JsResult<'a, js::JsValue>) -> VmResult<Val> {
        let mut scope = scope::RootScope(PhantomData);
        // the scope is as long-lived as the call
        f(FunctionCall { scope: &mut scope, arguments: Arguments { args, marker: PhantomData } }).map(|h| h.val)
    }
}

pub mod scope {
    use super::*;
    pub struct RootScope<'a>(pub PhantomData<&'a ()>);
    pub trait Scope<'a> {}
    impl<'a> Scope<'a> for RootScope<'a> {}
}

pub mod js {
    use super::*;
    pub trait Value {
        fn is(v: &Val) -> bool;
    }
    pub struct JsValue;
    pub struct JsObject;
    pub struct JsString;
    pub struct JsNull;
    pub struct JsFunction<T = JsObject>(PhantomData<T>);
    impl Value for JsValue {
        fn is(_: &Val) -> bool {
            true
        }
    }
    impl Value for JsString {
        fn is(v: &Val) -> bool {
            matches!(v, Val::Json(serde_json::Value::String(_)))
        }
    }
    impl Value for JsFunction {
        fn is(v: &Val) -> bool {
            matches!(v, Val::Callback(_))
        }
    }
    impl JsString {
        pub fn new<'a, S: scope::Scope<'a>>(_: &mut S, s: &str) -> Option<mem::Handle<'a, JsString>> {
            Some(mem::Handle::of_json(s.into()))
        }
    }
    impl JsNull {
        pub fn new<'a>() -> mem::Handle<'a, JsNull> {
            mem::Handle::of_json(serde_json::Value::Null)
        }
    }
    impl<'h, C: class::Class> mem::Handle<'h, JsFunction<C>> {
        pub fn construct<'a, 'b, S: scope::Scope<'a>, A: Value + 'b, I: IntoIterator<Item = mem::Handle<'b, A>>>(
            self,
            _: &mut S,
            args: I,
        ) -> vm::JsResult<'a, C> {
            let args = args.into_iter().map(|h| h.val).collect();
            let mut scope = scope::RootScope(PhantomData);
            let made = C::init(vm::FunctionCall {
                scope: &mut scope,
                arguments: vm::Arguments { args, marker: PhantomData },
            })?;
            Ok(mem::Handle::of(Val::Object(TypeId::of::<C>(), Rc::new(RefCell::new(Box::new(made))))))
        }
    }
    pub mod class {
        use super::*;
        pub trait Class: Value + Sized + 'static {
            type Internals: 'static;
            fn init<'a>(call: vm::Call<'a>) -> vm::VmResult<Self::Internals>;
            fn class<'a, S: scope::Scope<'a>>(_: &mut S) -> vm::JsResult<'a, JsClass<Self>> {
                Ok(mem::Handle::of(Val::Class(TypeId::of::<Self>())))
            }
        }
        pub struct JsClass<C>(PhantomData<C>);
        impl<'h, C: Class> mem::Handle<'h, JsClass<C>> {
            pub fn constructor<'a, S: scope::Scope<'a>>(self, _: &mut S) -> vm::JsResult<'a, JsFunction<C>> {
                Ok(mem::Handle::of(self.val))
            }
        }
    }
}

pub mod task {
    use super::*;
    pub trait Task: Send + Sized + 'static {
        type Output: Send + 'static;
        type Error: Send + 'static;
        type JsEvent;
        fn perform(&self) -> Result<Self::Output, Self::Error>;
        fn complete<'a, T: scope::Scope<'a>>(
            self,
            scope: &'a mut T,
            result: Result<Self::Output, Self::Error>,
        ) -> vm::JsResult<'a, Self::JsEvent>;
        fn schedule(self, callback: mem::Handle<js::JsFunction>) {
            let result = self.perform();
            let mut scope = scope::RootScope(PhantomData);
            let answer = match self.complete(&mut scope, result) {
                Ok(h) => Ok(h.json().unwrap()),
                Err(e) => Err(e.0),
            };
            if let Val::Callback(n) = callback.val {
                CALLED.with(|c| c.borrow_mut().push((n, answer)));
            }
        }
    }
}

pub type Fun = for<'a> fn(vm::Call<'a>) -> vm::JsResult<'a, js::JsValue>;

#[derive(Default)]
pub struct Module(pub Vec<(String, Fun)>);

impl Module {
    pub fn export(&mut self, name: &str, f: Fun) -> vm::VmResult<()> {
        self.0.push((name.to_owned(), f));
        Ok(())
    }
}

#[macro_export]
macro_rules! register_module {
    ($m:ident, $body:block) => {
        pub fn neon_module() -> $crate::Module {
            fn fill($m: &mut $crate::Module) -> $crate::vm::VmResult<()> $body
            let mut m = $crate::Module::default();
            fill(&mut m).unwrap();
            m
        }
    };
}

#[macro_export]
macro_rules! declare_types {
    () => {};
    (pub class $cls:ident for $t:ty { init($call:ident) $body:block } $($rest:tt)*) => {
        $crate::declare_types! { @one $cls, $t, $call, $body }
        $crate::declare_types! { $($rest)* }
    };
    (class $cls:ident for $t:ty { init($call:ident) $body:block } $($rest:tt)*) => {
        $crate::declare_types! { @one $cls, $t, $call, $body }
        $crate::declare_types! { $($rest)* }
    };
    (@one $cls:ident, $t:ty, $call:ident, $body:block) => {
        pub struct $cls;
        impl $crate::js::Value for $cls {
            fn is(v: &$crate::Val) -> bool {
                match v {
                    $crate::Val::Object(id, _) => *id == ::std::any::TypeId::of::<$cls>(),
                    _ => false,
                }
            }
        }
        impl $crate::js::class::Class for $cls {
            type Internals = $t;
            fn init<'a>($call: $crate::vm::Call<'a>) -> $crate::vm::VmResult<$t> $body
        }
    };
}
