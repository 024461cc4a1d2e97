use crate::Message;
pub fn fmt<M: Message>(m: &M, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
    write!(f, "{m:?}")
}
pub fn print_to_string<M: Message>(m: &M) -> String {
    format!("{m:?}")
}
