//! Just enough of the response builder for /repo/web/src/html.rs to compile.
pub struct HttpResponse;
pub struct Builder;
#[allow(non_snake_case)]
impl HttpResponse {
	pub fn InternalServerError() -> Builder {
		Builder
	}
	pub fn Ok() -> Builder {
		Builder
	}
}
impl Builder {
	pub fn content_type(&mut self, _: &str) -> &mut Self {
		self
	}
	pub fn body(&mut self, _: String) -> HttpResponse {
		HttpResponse
	}
}
