pub fn run() -> Value {
    let doc = describe_api! {
        info: { title: "t", version: "1" },
        paths: {
            ("a" / { id: String }): {
                parameters: { (query id: String) },
                GET: { 200: None }
            }
        }
    };
    json!({ "doc": js(&doc) })
}
