broadcast use crate::sp::sp_lebyte_cast;
