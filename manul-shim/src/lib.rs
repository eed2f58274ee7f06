//! A minimal stand-in for the parts of `manul` which synedrion uses. Only the interface between a protocol and the
//! session is here; the sessions are run by the harness, which delivers, changes and records the messages.
pub mod protocol {
    use std::any::Any;
    use std::boxed::Box;
    use std::collections::{BTreeMap, BTreeSet};
    use std::fmt::{self, Debug, Display};
    use std::string::{String, ToString};
    use std::vec::Vec;

    use rand_core::CryptoRngCore;
    use serde::{de::DeserializeOwned, Deserialize, Serialize};

    #[derive(Debug, Clone)]
    pub struct LocalError(String);
    impl LocalError {
        pub fn new(message: impl Into<String>) -> Self {
            Self(message.into())
        }
        pub fn message(&self) -> &str {
            &self.0
        }
    }
    impl Display for LocalError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "{}", self.0)
        }
    }

    pub trait PartyId: 'static + Debug + Clone + Ord + Send + Sync + Serialize + DeserializeOwned {}
    impl<T> PartyId for T where T: 'static + Debug + Clone + Ord + Send + Sync + Serialize + DeserializeOwned {}

    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct RoundId(pub u8);
    impl RoundId {
        pub fn new(n: u8) -> Self {
            Self(n)
        }
    }
    impl From<u8> for RoundId {
        fn from(n: u8) -> Self {
            Self(n)
        }
    }
    impl PartialEq<u8> for RoundId {
        fn eq(&self, o: &u8) -> bool {
            self.0 == *o
        }
    }
    impl Display for RoundId {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Round {}", self.0)
        }
    }

    #[derive(Debug, Clone)]
    pub struct TransitionInfo {
        pub id: RoundId,
        pub parents: BTreeSet<RoundId>,
        pub siblings: BTreeSet<RoundId>,
        pub children: BTreeSet<RoundId>,
        pub may_produce_result: bool,
    }
    impl TransitionInfo {
        pub fn new_linear(n: u8) -> Self {
            Self {
                id: RoundId(n),
                parents: if n > 1 { [RoundId(n - 1)].into() } else { BTreeSet::new() },
                siblings: BTreeSet::new(),
                children: [RoundId(n + 1)].into(),
                may_produce_result: false,
            }
        }
        pub fn new_linear_terminating(n: u8) -> Self {
            Self { children: BTreeSet::new(), may_produce_result: true, ..Self::new_linear(n) }
        }
        pub fn with_children(self, children: BTreeSet<u8>) -> Self {
            let mut s = self;
            s.children.extend(children.into_iter().map(RoundId));
            s
        }
        pub fn with_siblings(self, siblings: BTreeSet<u8>) -> Self {
            Self { siblings: siblings.into_iter().map(RoundId).collect(), ..self }
        }
    }

    #[derive(Debug, Clone)]
    pub enum EchoRoundParticipation<Id> {
        Default,
        Send,
        Receive { echo_targets: BTreeSet<Id> },
    }
    #[derive(Debug, Clone)]
    pub struct CommunicationInfo<Id> {
        pub message_destinations: BTreeSet<Id>,
        pub expecting_messages_from: BTreeSet<Id>,
        pub echo_round_participation: EchoRoundParticipation<Id>,
    }
    impl<Id: PartyId> CommunicationInfo<Id> {
        pub fn regular(others: &BTreeSet<Id>) -> Self {
            Self { message_destinations: others.clone(), expecting_messages_from: others.clone(), echo_round_participation: EchoRoundParticipation::Default }
        }
        pub fn none() -> Self {
            Self { message_destinations: BTreeSet::new(), expecting_messages_from: BTreeSet::new(), echo_round_participation: EchoRoundParticipation::Default }
        }
    }

    /// The wire format: JSON, so that messages can be taken apart and changed.
    #[derive(Debug, Clone, Copy, Default)]
    pub struct BoxedFormat;
    impl BoxedFormat {
        pub fn serialize<T: Serialize>(&self, v: &T) -> Result<Vec<u8>, LocalError> {
            serde_json::to_vec(v).map_err(|e| LocalError::new(e.to_string()))
        }
        pub fn deserialize<T: for<'de> Deserialize<'de>>(&self, b: &[u8]) -> Result<T, String> {
            serde_json::from_slice(b).map_err(|e| e.to_string())
        }
    }

    #[derive(Debug, Clone)]
    pub enum MessageValidationError {
        Local(LocalError),
        InvalidEvidence(String),
    }
    impl From<LocalError> for MessageValidationError {
        fn from(e: LocalError) -> Self {
            Self::Local(e)
        }
    }
    #[derive(Debug, Clone)]
    pub enum ProtocolValidationError {
        Local(LocalError),
        InvalidEvidence(String),
    }
    impl From<LocalError> for ProtocolValidationError {
        fn from(e: LocalError) -> Self {
            Self::Local(e)
        }
    }

    pub trait ProtocolMessagePart: Sized {
        type Error;
        fn wrap(v: Option<Vec<u8>>) -> Self;
        fn bytes(&self) -> Option<&[u8]>;
        fn error(s: String) -> Self::Error;
        fn none() -> Self {
            Self::wrap(None)
        }
        fn new<T: 'static + Serialize>(format: &BoxedFormat, message: T) -> Result<Self, LocalError> {
            Ok(Self::wrap(Some(format.serialize(&message)?)))
        }
        fn is_none(&self) -> bool {
            self.bytes().is_none()
        }
        fn assert_is_none(&self) -> Result<(), Self::Error> {
            match self.bytes() {
                None => Ok(()),
                Some(_) => Err(Self::error("the part is present, but must not be".into())),
            }
        }
        fn deserialize<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<T, Self::Error> {
            match self.bytes() {
                None => Err(Self::error("the part is missing".into())),
                Some(b) => format.deserialize(b).map_err(Self::error),
            }
        }
        /// Succeeds if the part is present.
        fn verify_is_some(&self) -> Result<(), MessageValidationError> {
            match self.bytes() {
                Some(_) => Ok(()),
                None => Err(MessageValidationError::InvalidEvidence("the part is not present".into())),
            }
        }
        /// Succeeds if the part is absent or does not deserialize.
        fn verify_is_not<T: for<'de> Deserialize<'de>>(&self, format: &BoxedFormat) -> Result<(), MessageValidationError> {
            match self.bytes() {
                None => Ok(()),
                Some(b) => match format.deserialize::<T>(b) {
                    Ok(_) => Err(MessageValidationError::InvalidEvidence("the part deserializes".into())),
                    Err(_) => Ok(()),
                },
            }
        }
    }
    macro_rules! part {
        ($t:ident, $e:ident) => {
            #[derive(Debug, Clone, PartialEq, Eq)]
            pub struct $t(Option<Vec<u8>>);
            #[derive(Debug, Clone)]
            pub struct $e(pub String);
            impl ProtocolMessagePart for $t {
                type Error = $e;
                fn wrap(v: Option<Vec<u8>>) -> Self {
                    Self(v)
                }
                fn bytes(&self) -> Option<&[u8]> {
                    self.0.as_deref()
                }
                fn error(s: String) -> $e {
                    $e(s)
                }
            }
            impl From<$e> for ProtocolValidationError {
                fn from(e: $e) -> Self {
                    Self::InvalidEvidence(e.0)
                }
            }
            impl<Id, P: Protocol<Id>> From<$e> for ReceiveError<Id, P> {
                fn from(e: $e) -> Self {
                    Self::$t(e.0)
                }
            }
        };
    }
    part!(EchoBroadcast, EchoBroadcastError);
    part!(NormalBroadcast, NormalBroadcastError);
    part!(DirectMessage, DirectMessageError);

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct ProtocolMessage {
        pub echo_broadcast: EchoBroadcast,
        pub normal_broadcast: NormalBroadcast,
        pub direct_message: DirectMessage,
    }

    pub enum ReceiveError<Id, P: Protocol<Id>> {
        Local(LocalError),
        EchoBroadcast(String),
        NormalBroadcast(String),
        DirectMessage(String),
        Protocol(P::ProtocolError),
    }
    impl<Id, P: Protocol<Id>> Debug for ReceiveError<Id, P> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            match self {
                Self::Local(e) => write!(f, "Local({})", e),
                Self::EchoBroadcast(e) => write!(f, "EchoBroadcast({})", e),
                Self::NormalBroadcast(e) => write!(f, "NormalBroadcast({})", e),
                Self::DirectMessage(e) => write!(f, "DirectMessage({})", e),
                Self::Protocol(e) => write!(f, "Protocol({})", e),
            }
        }
    }
    impl<Id, P: Protocol<Id>> ReceiveError<Id, P> {
        pub fn protocol(e: P::ProtocolError) -> Self {
            Self::Protocol(e)
        }
    }
    impl<Id, P: Protocol<Id>> From<LocalError> for ReceiveError<Id, P> {
        fn from(e: LocalError) -> Self {
            Self::Local(e)
        }
    }

    pub struct Payload(Box<dyn Any + Send + Sync>);
    impl Payload {
        pub fn new<T: 'static + Send + Sync>(v: T) -> Self {
            Self(Box::new(v))
        }
        pub fn empty() -> Self {
            Self::new(())
        }
        pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
            self.0.downcast::<T>().map(|x| *x).map_err(|_| LocalError::new("wrong payload type"))
        }
    }
    impl Debug for Payload {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Payload")
        }
    }
    pub struct Artifact(Box<dyn Any + Send + Sync>);
    impl Artifact {
        pub fn new<T: 'static + Send + Sync>(v: T) -> Self {
            Self(Box::new(v))
        }
        pub fn downcast<T: 'static>(self) -> Result<T, LocalError> {
            self.0.downcast::<T>().map(|x| *x).map_err(|_| LocalError::new("wrong artifact type"))
        }
    }

    pub trait Protocol<Id>: 'static {
        type Result: Debug;
        type ProtocolError: ProtocolError<Id>;
        fn verify_direct_message_is_invalid(format: &BoxedFormat, round_id: &RoundId, message: &DirectMessage) -> Result<(), MessageValidationError>;
        fn verify_echo_broadcast_is_invalid(format: &BoxedFormat, round_id: &RoundId, message: &EchoBroadcast) -> Result<(), MessageValidationError>;
        fn verify_normal_broadcast_is_invalid(format: &BoxedFormat, round_id: &RoundId, message: &NormalBroadcast) -> Result<(), MessageValidationError>;
    }

    pub trait ProtocolError<Id>: Display + Debug + Clone + Send + Serialize + DeserializeOwned {
        type AssociatedData: Debug;
        fn required_messages(&self) -> RequiredMessages;
        #[allow(clippy::too_many_arguments)]
        fn verify_messages_constitute_error(
            &self,
            format: &BoxedFormat,
            guilty_party: &Id,
            shared_randomness: &[u8],
            associated_data: &Self::AssociatedData,
            message: ProtocolMessage,
            previous_messages: BTreeMap<RoundId, ProtocolMessage>,
            combined_echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
        ) -> Result<(), ProtocolValidationError>;
    }

    #[derive(Debug, Clone, Copy)]
    pub struct RequiredMessageParts {
        pub echo_broadcast: bool,
        pub normal_broadcast: bool,
        pub direct_message: bool,
    }
    impl RequiredMessageParts {
        pub fn echo_broadcast() -> Self {
            Self { echo_broadcast: true, normal_broadcast: false, direct_message: false }
        }
        pub fn normal_broadcast() -> Self {
            Self { echo_broadcast: false, normal_broadcast: true, direct_message: false }
        }
        pub fn direct_message() -> Self {
            Self { echo_broadcast: false, normal_broadcast: false, direct_message: true }
        }
        pub fn and_echo_broadcast(&self) -> Self {
            Self { echo_broadcast: true, ..*self }
        }
        pub fn and_normal_broadcast(&self) -> Self {
            Self { normal_broadcast: true, ..*self }
        }
        pub fn and_direct_message(&self) -> Self {
            Self { direct_message: true, ..*self }
        }
    }
    #[derive(Debug, Clone)]
    pub struct RequiredMessages {
        pub this_round: RequiredMessageParts,
        pub previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>,
        pub combined_echos: Option<BTreeSet<RoundId>>,
    }
    impl RequiredMessages {
        pub fn new(this_round: RequiredMessageParts, previous_rounds: Option<BTreeMap<RoundId, RequiredMessageParts>>, combined_echos: Option<BTreeSet<RoundId>>) -> Self {
            Self { this_round, previous_rounds, combined_echos }
        }
    }

    pub enum FinalizeOutcome<Id: PartyId, P: Protocol<Id>> {
        Result(P::Result),
        AnotherRound(BoxedRound<Id, P>),
    }

    pub trait Round<Id: PartyId>: 'static + Debug + Send + Sync {
        type Protocol: Protocol<Id>;
        fn transition_info(&self) -> TransitionInfo;
        fn communication_info(&self) -> CommunicationInfo<Id>;
        fn make_echo_broadcast(&self, _rng: &mut dyn CryptoRngCore, _format: &BoxedFormat) -> Result<EchoBroadcast, LocalError> {
            Ok(EchoBroadcast::none())
        }
        fn make_normal_broadcast(&self, _rng: &mut dyn CryptoRngCore, _format: &BoxedFormat) -> Result<NormalBroadcast, LocalError> {
            Ok(NormalBroadcast::none())
        }
        fn make_direct_message(&self, _rng: &mut dyn CryptoRngCore, _format: &BoxedFormat, _destination: &Id) -> Result<(DirectMessage, Option<Artifact>), LocalError> {
            Ok((DirectMessage::none(), None))
        }
        fn receive_message(&self, format: &BoxedFormat, from: &Id, message: ProtocolMessage) -> Result<Payload, ReceiveError<Id, Self::Protocol>>;
        fn finalize(
            self: Box<Self>,
            rng: &mut dyn CryptoRngCore,
            payloads: BTreeMap<Id, Payload>,
            artifacts: BTreeMap<Id, Artifact>,
        ) -> Result<FinalizeOutcome<Id, Self::Protocol>, LocalError>;
    }

    pub struct BoxedRound<Id: PartyId, P: Protocol<Id>>(pub Box<dyn Round<Id, Protocol = P>>);
    impl<Id: PartyId, P: Protocol<Id>> BoxedRound<Id, P> {
        pub fn new_dynamic<R: Round<Id, Protocol = P>>(round: R) -> Self {
            Self(Box::new(round))
        }
        pub fn id(&self) -> RoundId {
            self.0.transition_info().id
        }
    }
    impl<Id: PartyId, P: Protocol<Id>> Debug for BoxedRound<Id, P> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }

    pub trait EntryPoint<Id: PartyId> {
        type Protocol: Protocol<Id>;
        fn entry_round_id() -> RoundId;
        fn make_round(self, rng: &mut dyn CryptoRngCore, shared_randomness: &[u8], id: &Id) -> Result<BoxedRound<Id, Self::Protocol>, LocalError>;
    }
}

pub mod session {
    pub use crate::protocol::LocalError;
}

pub mod utils {
    use std::collections::BTreeMap;
    use std::ops::{Deref, DerefMut};
    use std::vec::Vec;

    use serde::{de::Error as _, Deserialize, Deserializer, Serialize, Serializer};

    /// A map which serializes as a sequence of pairs.
    #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct SerializableMap<K, V>(BTreeMap<K, V>);
    impl<K, V> From<BTreeMap<K, V>> for SerializableMap<K, V> {
        fn from(m: BTreeMap<K, V>) -> Self {
            Self(m)
        }
    }
    impl<K, V> From<SerializableMap<K, V>> for BTreeMap<K, V> {
        fn from(m: SerializableMap<K, V>) -> Self {
            m.0
        }
    }
    impl<K, V> Deref for SerializableMap<K, V> {
        type Target = BTreeMap<K, V>;
        fn deref(&self) -> &Self::Target {
            &self.0
        }
    }
    impl<K, V> DerefMut for SerializableMap<K, V> {
        fn deref_mut(&mut self) -> &mut Self::Target {
            &mut self.0
        }
    }
    impl<K, V> AsRef<BTreeMap<K, V>> for SerializableMap<K, V> {
        fn as_ref(&self) -> &BTreeMap<K, V> {
            &self.0
        }
    }
    impl<K: Serialize, V: Serialize> Serialize for SerializableMap<K, V> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_seq(self.0.iter())
        }
    }
    impl<'de, K: Deserialize<'de> + Ord, V: Deserialize<'de>> Deserialize<'de> for SerializableMap<K, V> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let v = Vec::<(K, V)>::deserialize(d)?;
            let n = v.len();
            let m: BTreeMap<K, V> = v.into_iter().collect();
            if m.len() != n {
                return Err(D::Error::custom("duplicate keys"));
            }
            Ok(Self(m))
        }
    }
}
