#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum StatusDataItemName { Messages, Recent, UidNext, UidValidity, Unseen, Deleted, DeletedStorage }
impl StatusDataItemName {
    pub const ALL: [(&'static str, Self); 7] = [("MESSAGES", Self::Messages), ("RECENT", Self::Recent), ("UIDNEXT", Self::UidNext), ("UIDVALIDITY", Self::UidValidity), ("UNSEEN", Self::Unseen), ("DELETED", Self::Deleted), ("DELETED-STORAGE", Self::DeletedStorage)];
}
#[derive(Clone, Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub enum StatusDataItem { Messages(u32), Recent(u32), UidNext(std::num::NonZeroU32), UidValidity(std::num::NonZeroU32), Unseen(u32), Deleted(u32), DeletedStorage(u64) }
st_copy!(StatusDataItemName, StatusDataItem);
