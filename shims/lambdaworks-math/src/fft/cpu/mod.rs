pub mod roots_of_unity;
