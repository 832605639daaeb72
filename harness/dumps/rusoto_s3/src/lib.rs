//! Stand-in: there is no network, every request fails.
#[derive(Default)]
pub struct GetObjectRequest {
    pub bucket: String,
    pub key: String,
    pub range: Option<String>,
}
pub struct Body;
impl Body {
    pub fn into_blocking_read(self) -> std::io::Empty {
        std::io::empty()
    }
}
pub struct GetObjectOutput {
    pub body: Option<Body>,
}
pub struct Request;
impl Request {
    pub fn sync(self) -> Result<GetObjectOutput, std::io::Error> {
        Err(std::io::ErrorKind::NotConnected.into())
    }
}
pub trait S3 {
    fn get_object(&self, request: GetObjectRequest) -> Request;
}
pub struct S3Client;
impl S3Client {
    pub fn new<T>(_region: T) -> Self {
        S3Client
    }
}
impl S3 for S3Client {
    fn get_object(&self, _request: GetObjectRequest) -> Request {
        Request
    }
}
