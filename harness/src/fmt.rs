//! The only place that names the library's raw format API.
use serde_json::Value;
use ssbh_lib::prelude::*;
use std::io::Cursor;

pub fn read(b: &[u8]) -> Result<SsbhFile, String> {
    SsbhFile::read(&mut Cursor::new(b)).map_err(|e| format!("{e}"))
}

pub fn write(f: &SsbhFile) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(Vec::new());
    f.write(&mut c).map_err(|e| format!("{e}"))?;
    Ok(c.into_inner())
}

pub fn json(f: &SsbhFile) -> Value {
    serde_json::to_value(f).expect("serializing never fails")
}

pub fn from_json(v: &Value) -> Result<SsbhFile, String> {
    serde_json::from_value(v.clone()).map_err(|e| e.to_string())
}

/// Same operations through the API of the specific format type.
pub struct Typed {
    pub name: &'static str,
    /// reads and returns (json of the value, rewritten bytes)
    pub read: fn(&[u8]) -> Result<(Value, Vec<u8>), String>,
    pub from_file: fn(&std::path::Path) -> Result<Value, String>,
    pub is_type_error: fn(&[u8]) -> bool,
    /// builds from the json of the value and writes with write / write_to_file
    pub write_json: fn(&Value) -> Result<Vec<u8>, String>,
    pub write_file: fn(&Value, &std::path::Path) -> Result<(), String>,
}

macro_rules! typed {
    ($($t:ident),*) => {
        vec![$(Typed {
            name: stringify!($t),
            read: |b| {
                let v = $t::read(&mut Cursor::new(b)).map_err(|e| format!("{e}"))?;
                let mut c = Cursor::new(Vec::new());
                v.write(&mut c).map_err(|e| format!("{e}"))?;
                Ok((serde_json::to_value(&v).unwrap(), c.into_inner()))
            },
            from_file: |p| {
                let v = $t::from_file(p).map_err(|e| format!("{e}"))?;
                Ok(serde_json::to_value(&v).unwrap())
            },
            is_type_error: |b| matches!($t::read(&mut Cursor::new(b)), Err(ssbh_lib::ReadSsbhError::InvalidSsbhType)),
            write_json: |j| {
                let v: $t = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
                let mut c = Cursor::new(Vec::new());
                v.write(&mut c).map_err(|e| format!("{e}"))?;
                Ok(c.into_inner())
            },
            write_file: |j, p| {
                let v: $t = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
                v.write_to_file(p).map_err(|e| format!("{e}"))
            },
        }),*]
    };
}

pub fn typed() -> Vec<Typed> {
    typed!(Hlpb, Matl, Modl, Mesh, Skel, Anim, Nlst, Nrpd, Nufx, Shdr)
}
