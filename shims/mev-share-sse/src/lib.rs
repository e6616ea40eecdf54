//! Offline stand-in for `mev-share-sse`: subscriptions answered by the reqwest stand-in's handler.
pub use client::EventClient;
pub mod client {
    use serde::de::DeserializeOwned;
    use std::{collections::VecDeque, marker::PhantomData};
    #[derive(Debug, Clone, Default)]
    pub struct EventClient;
    pub struct EventStream<T> {
        events: VecDeque<String>,
        _t: PhantomData<T>,
    }
    impl EventClient {
        pub async fn subscribe<T: DeserializeOwned>(&self, endpoint: &str) -> reqwest::Result<EventStream<T>> {
            let r = reqwest::stand_in::fetch(endpoint)?;
            let text = String::from_utf8_lossy(&r.body).into_owned();
            let events = text.lines().filter_map(|l| l.strip_prefix("data:")).map(|d| d.trim().to_string()).collect();
            Ok(EventStream { events, _t: PhantomData })
        }
    }
    impl<T: DeserializeOwned> Iterator for EventStream<T> {
        type Item = Result<T, String>;
        fn next(&mut self) -> Option<Self::Item> {
            self.events.pop_front().map(|e| serde_json::from_str(&e).map_err(|e| e.to_string()))
        }
    }
}
