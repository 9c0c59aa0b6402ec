//! Runs the executable form of a property's contracts against the compiled code of /repo.
mod common;
mod p_cmp;
mod p_list;
mod p_parse;
mod p_sys;
mod p_term;
use common::*;

fn main() {
	run(|id, c| {
		match id {
			"C01" => p_term::c01(c),
			"C02" => p_term::c02(c),
			"C05" => p_cmp::c05(c),
			"C06" => p_cmp::c06(c),
			"C07" => p_cmp::c07(c),
			"C08" => {
				p_cmp::c08(c);
				p_sys::on_files(c, "C08");
			},
			"C09" => {
				p_list::c09(c);
				p_sys::on_files(c, "C09");
			},
			"C10" => p_list::c10(c),
			"C11" => p_list::c11(c),
			"C15" => p_list::c15(c),
			"C21" => p_list::c21(c),
			"C17" => p_term::c17(c),
			"C03" => p_parse::c03(c),
			"C04" => p_parse::c04(c),
			"C12" => {
				p_parse::c12(c);
				p_sys::on_files(c, "C12");
			},
			"C14" => p_parse::c14(c),
			"C22" => p_parse::c22(c),
			"C13" => p_sys::c13(c),
			"C16" => p_sys::c16(c),
			_ => return None,
		}
		Some(())
	})
}
