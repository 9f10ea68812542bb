//! Verification stand-in for `pyo3`: an interpreter token and modules that record nothing.
pub use pyo3_macros::{pyclass, pyfunction, pymethods, pymodule};
use std::marker::PhantomData;
#[derive(Copy, Clone)]
pub struct Python<'py>(pub PhantomData<&'py ()>);
#[derive(Debug)]
pub struct PyErr;
pub type PyResult<T> = Result<T, PyErr>;
pub struct PyModule;
static MODULE: PyModule = PyModule;
impl PyModule {
    pub fn new<'py>(_: Python<'py>, _: &str) -> PyResult<&'py PyModule> { Ok(&MODULE) }
    pub fn add_submodule(&self, _: &PyModule) -> PyResult<()> { Ok(()) }
    pub fn add_class<T>(&self) -> PyResult<()> { Ok(()) }
    pub fn add<T>(&self, _: &str, _: T) -> PyResult<()> { Ok(()) }
    pub fn py(&self) -> Python<'_> { Python(PhantomData) }
}
pub mod types { pub use crate::PyModule; }
pub mod prelude { pub use crate::{pyclass, pyfunction, pymethods, pymodule, PyErr, PyResult, Python, types::PyModule}; }
