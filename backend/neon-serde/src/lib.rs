//! A stand-in for neon-serde: values cross as JSON.
use neon::mem::Handle;
use neon::js::JsValue;
use neon::vm::Throw;

#[derive(Debug)]
pub struct Error(String);

impl From<Error> for Throw {
    fn from(e: Error) -> Throw {
        Throw(e.0)
    }
}

pub fn from_value<'j, T: serde::de::DeserializeOwned, S>(_: &mut S, value: Handle<'j, JsValue>) -> Result<T, Error> {
    let json = value.json().ok_or_else(|| Error("TypeError: expected plain data".into()))?;
    serde_json::from_value(json).map_err(|e| Error(format!("TypeError: {}", e)))
}

pub fn to_value<'j, T: serde::Serialize + ?Sized, S>(_: &mut S, value: &T) -> Result<Handle<'j, JsValue>, Error> {
    serde_json::to_value(value).map(Handle::of_json).map_err(|e| Error(e.to_string()))
}
