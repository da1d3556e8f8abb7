pub mod idle {
    /// Denotes the continuation data message "DONE\r\n" to end the IDLE command.
    #[derive(Clone, Debug, Eq, Hash, PartialEq)]
    pub struct IdleDone;
    st_copy!(IdleDone);
}
pub mod quota {
    use crate::core::Atom;
    #[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
    pub enum Resource<'a> { Storage, Message, Mailbox, AnnotationStorage, Other(ResourceOther<'a>) }
    #[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
    pub struct ResourceOther<'a>(pub(crate) Atom<'a>);
    #[derive(Clone, Debug, Eq, Hash, PartialEq)]
    pub struct QuotaSet<'a> { pub resource: Resource<'a>, pub limit: u64 }
    st!(QuotaSet, this => QuotaSet { resource: this.resource.into_static(), limit: this.limit });
    #[derive(Clone, Debug, Eq, Hash, PartialEq)]
    pub struct QuotaGet<'a> { pub resource: Resource<'a>, pub usage: u64, pub limit: u64 }
    st!(QuotaGet, this => QuotaGet { resource: this.resource.into_static(), usage: this.usage, limit: this.limit });
    impl<'a> From<Atom<'a>> for Resource<'a> {
        fn from(a: Atom<'a>) -> Self {
            match a.as_ref().to_ascii_uppercase().as_str() { "STORAGE" => Self::Storage, "MESSAGE" => Self::Message, "MAILBOX" => Self::Mailbox, "ANNOTATION-STORAGE" => Self::AnnotationStorage, _ => Self::Other(ResourceOther(a)) }
        }
    }
    impl<'a> AsRef<str> for Resource<'a> {
        fn as_ref(&self) -> &str { match self { Self::Storage => "STORAGE", Self::Message => "MESSAGE", Self::Mailbox => "MAILBOX", Self::AnnotationStorage => "ANNOTATION-STORAGE", Self::Other(o) => o.0.as_ref() } }
    }
    st!(ResourceOther, this => ResourceOther(this.0.into_static()));
    st!(Resource, this => match this { Resource::Storage => Resource::Storage, Resource::Message => Resource::Message, Resource::Mailbox => Resource::Mailbox, Resource::AnnotationStorage => Resource::AnnotationStorage, Resource::Other(o) => Resource::Other(o.into_static()) });
}
pub mod enable {
    use crate::core::Atom;
    #[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
    #[non_exhaustive]
    pub enum CapabilityEnable<'a> { Utf8(Utf8Kind), CondStore, Other(CapabilityEnableOther<'a>) }
    #[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
    pub enum Utf8Kind { Accept, Only }
    #[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
    pub struct CapabilityEnableOther<'a>(Atom<'a>);
    impl<'a> From<Atom<'a>> for CapabilityEnable<'a> {
        fn from(a: Atom<'a>) -> Self { match a.as_ref().to_ascii_uppercase().as_str() { "CONDSTORE" => Self::CondStore, "UTF8=ACCEPT" => Self::Utf8(Utf8Kind::Accept), "UTF8=ONLY" => Self::Utf8(Utf8Kind::Only), _ => Self::Other(CapabilityEnableOther(a)) } }
    }
    impl AsRef<str> for CapabilityEnable<'_> { fn as_ref(&self) -> &str { match self { Self::CondStore => "CONDSTORE", Self::Utf8(Utf8Kind::Accept) => "UTF8=ACCEPT", Self::Utf8(Utf8Kind::Only) => "UTF8=ONLY", Self::Other(o) => o.0.as_ref() } } }
    st_copy!(Utf8Kind);
    st!(CapabilityEnableOther, this => CapabilityEnableOther(this.0.into_static()));
    st!(CapabilityEnable, this => match this { CapabilityEnable::CondStore => CapabilityEnable::CondStore, CapabilityEnable::Utf8(k) => CapabilityEnable::Utf8(k), CapabilityEnable::Other(o) => CapabilityEnable::Other(o.into_static()) });
}
pub mod compress {
    #[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
    #[non_exhaustive]
    pub enum CompressionAlgorithm { Deflate }
    st_copy!(CompressionAlgorithm);
}
pub mod sort {
    use crate::core::Atom;
    #[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
    pub enum SortAlgorithm<'a> { Display, Other(Atom<'a>) }
    st!(SortAlgorithm, this => match this { SortAlgorithm::Display => SortAlgorithm::Display, SortAlgorithm::Other(a) => SortAlgorithm::Other(a.into_static()) });
}
pub mod thread {
    use crate::core::Atom;
    #[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
    #[non_exhaustive]
    pub enum ThreadingAlgorithm<'a> { OrderedSubject, References, Other(Atom<'a>) }
    st!(ThreadingAlgorithm, this => match this { ThreadingAlgorithm::OrderedSubject => ThreadingAlgorithm::OrderedSubject, ThreadingAlgorithm::References => ThreadingAlgorithm::References, ThreadingAlgorithm::Other(a) => ThreadingAlgorithm::Other(a.into_static()) });
}
