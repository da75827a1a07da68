//! Offline stand-in for the `genai` git dependency: type-checks tailcall's LLM client,
//! every call fails. Nothing verified here goes through it.
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "genai is not available offline")
    }
}
impl std::error::Error for Error {}
pub mod adapter {
    #[derive(Clone, Copy, Debug)]
    pub enum AdapterKind { Ollama }
    impl AdapterKind {
        pub fn from_model(_: &str) -> Result<Self, super::Error> { Ok(Self::Ollama) }
    }
    #[derive(Default, Clone, Debug)]
    pub struct AdapterConfig;
    impl AdapterConfig {
        pub fn with_auth_resolver(self, _: super::resolver::AuthResolver) -> Self { self }
    }
}
pub mod resolver {
    #[derive(Clone, Debug)]
    pub struct AuthResolver;
    impl AuthResolver {
        pub fn from_key_value(_: String) -> Self { Self }
    }
}
pub mod chat {
    #[derive(Default, Clone, Debug)]
    pub struct ChatOptions;
    impl ChatOptions {
        pub fn with_json_mode(self, _: bool) -> Self { self }
        pub fn with_temperature(self, _: f64) -> Self { self }
    }
    #[derive(Clone, Debug)]
    pub struct ChatMessage { pub content: MessageContent }
    impl ChatMessage {
        pub fn system(c: impl Into<String>) -> Self { Self { content: MessageContent::Text(c.into()) } }
        pub fn user(c: impl Into<String>) -> Self { Self { content: MessageContent::Text(c.into()) } }
    }
    #[derive(Clone, Debug)]
    pub enum MessageContent { Text(String) }
    impl MessageContent {
        pub fn text_as_str(&self) -> Option<&str> { let Self::Text(s) = self; Some(s) }
    }
    #[derive(Clone, Debug)]
    pub struct ChatRequest { pub messages: Vec<ChatMessage> }
    impl ChatRequest { pub fn new(messages: Vec<ChatMessage>) -> Self { Self { messages } } }
    #[derive(Clone, Debug, Default)]
    pub struct ChatResponse { pub content: Option<MessageContent> }
}
#[derive(Clone, Debug)]
pub struct Client;
pub struct ClientBuilder;
impl Client {
    pub fn builder() -> ClientBuilder { ClientBuilder }
    pub async fn exec_chat(&self, _: &str, _: chat::ChatRequest, _: Option<&chat::ChatOptions>) -> Result<chat::ChatResponse, Error> { Err(Error) }
}
impl ClientBuilder {
    pub fn with_chat_options(self, _: chat::ChatOptions) -> Self { self }
    pub fn insert_adapter_config(self, _: adapter::AdapterKind, _: adapter::AdapterConfig) -> Self { self }
    pub fn build(self) -> Client { Client }
}
