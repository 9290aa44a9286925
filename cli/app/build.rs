fn main() {
	println!("cargo:rustc-env=CARGO_BIN_NAME=dynamixel2");
}
