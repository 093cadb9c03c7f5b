pub mod watch;
pub mod driver;
pub mod grammar;
pub mod lalr;
pub mod lexer;
pub mod cover;
