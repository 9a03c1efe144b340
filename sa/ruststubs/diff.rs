pub enum Result<T>{Left(T),Both(T,T),Right(T)}
pub fn lines<'a>(_: &'a str,_: &'a str)->Vec<Result<&'a str>>{Vec::new()}
