pub fn from_reader() {}
