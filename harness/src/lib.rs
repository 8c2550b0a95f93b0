pub mod tr;
