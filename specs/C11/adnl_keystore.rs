// C11: the keystore of any size: a tag and a key are either both registered, together, or not at all.
fn any_secret() -> ed25519::SecretKey { ed25519::SecretKey::from_bytes(kani::any()) }
fn entry_for(id: NodeIdShort) -> Arc<Key> {
    let s = any_secret();
    Arc::new(Key { short_id: id, full_id: NodeIdFull::new(ed25519::PublicKey::from(&s)), secret_key: ed25519::ExpandedSecretKey::from(&s) })
}

struct Case { store: Keystore, tag: usize, tagged: Option<NodeIdShort>, has_key: bool, other_tag: usize, other: NodeIdShort }

/// Any well-formed store (a one-to-one table of tags and keys), known at: the tag and the key to be
/// added, whatever that tag holds now, and one other arbitrary registered tag.
fn any_case(id: NodeIdShort, has_tag: bool) -> Case {
    let mut store = Keystore::default();
    let tag: usize = kani::any();
    let other_tag: usize = kani::any();
    kani::assume(other_tag != tag);
    let other = NodeIdShort::new(kani::any());
    let tagged = if has_tag { Some(NodeIdShort::new(kani::any())) } else { None };
    kani::assume(tagged != Some(other));
    let has_key = kani::any();
    kani::assume(if tagged == Some(id) || other == id { has_key } else { true });
    store.tags.insert(other_tag, other);
    if let Some(t) = tagged { store.tags.insert(tag, t); }
    if has_key { store.keys.insert(id, entry_for(id)); }
    if other != id { store.keys.insert(other, entry_for(other)); }
    if let Some(t) = tagged { if t != id { store.keys.insert(t, entry_for(t)); } }
    store.tags.spec_partial();
    store.tags.spec_absent(tag);
    store.keys.spec_partial();
    store.keys.spec_absent(id);
    Case { store, tag, tagged, has_key, other_tag, other }
}

//@ harness unwind=40 fns=Keystore::add_key,Keystore::key_by_id,Keystore::key_by_tag,Key::from_bytes : adding a key under a
//@ + free tag, any store: the key must be new; a refused addition changes nothing; other tags keep their keys
pub fn add_key_free_tag() {
    let r = add_key(false);
    kani::cover!(r, "new key");
    kani::cover!(!r, "key under another tag");
}
//@ harness unwind=40 fns=Keystore::add_key,Keystore::key_by_id,Keystore::key_by_tag,Key::from_bytes : adding a key under a
//@ + used tag, any store: accepted exactly when it is the same key; nothing changes
pub fn add_key_used_tag() {
    let r = add_key(true);
    kani::cover!(r, "same key again");
    kani::cover!(!r, "tag taken");
}
fn add_key(has_tag: bool) -> bool {
    let secret: [u8; 32] = kani::any();
    let id = *Key::from_bytes(secret).id();
    let mut c = any_case(id, has_tag);
    let r = c.store.add_key(secret, c.tag);
    let expect = match c.tagged { Some(t) => t == id, None => !c.has_key };
    assert!(r.is_ok() == expect, "accepted exactly when the tag is free and the key new, or the pair already registered");
    if let Ok(x) = r { assert!(x == id, "the id of the added key is returned"); }
    let after = if expect { Some(id) } else { c.tagged };
    match (c.store.key_by_tag(c.tag), after) {
        (Ok(k), Some(t)) => assert!(k.id() == &t, "the tag finds its key"),
        (Err(KeystoreError::KeyTagNotFound(_)), None) => {}
        _ => assert!(false, "the tag is registered exactly when an addition succeeded"),
    }
    assert!(c.store.key_by_id(&id).is_ok() == (c.has_key || expect), "the key is registered exactly when an addition succeeded");
    match c.store.key_by_tag(c.other_tag) { Ok(k) => assert!(k.id() == &c.other, "other tags keep their keys"), Err(_) => assert!(false, "other tags stay registered") }
    expect
}

//@ harness unwind=40 fns=Keystore::add_key,Keystore::key_by_id,Keystore::key_by_tag,Key::id,Key::full_id : a stored key is found
//@ + by its short id, carries the matching full id, and is the same key by tag and by id
pub fn stored_key() {
    let secret: [u8; 32] = kani::any();
    let tag: usize = kani::any();
    let mut store = Keystore::default();
    let id = store.add_key(secret, tag).ok().unwrap();
    let a = store.key_by_id(&id).ok().unwrap();
    let b = store.key_by_tag(tag).ok().unwrap();
    assert!(Arc::ptr_eq(a, b), "one key, two names");
    assert!(a.id() == &id && &a.full_id().compute_short_id() == &id, "the id is the hash of the public key");
    let public = ed25519::PublicKey::from(&ed25519::SecretKey::from_bytes(secret));
    assert!(a.full_id().public_key() == &public, "the public key belongs to the secret");
    let other = NodeIdShort::new(kani::any());
    assert!(store.key_by_id(&other).is_ok() == (other == id), "no other key is found");
    assert!(store.keys().contains_key(&id));
    kani::cover!(other == id, "same id");
    kani::cover!(other != id, "another id");
}

//@ harness unwind=110 fns=Key::sign : a signature made with a stored key verifies under its public key
pub fn sign_verifies() {
    let key = Key::from_bytes(kani::any());
    let data = crate::proto::rpc::AdnlPing { value: kani::any() };
    let s = key.sign(data);
    assert!(key.full_id().verify(crate::proto::rpc::AdnlPing { value: data.value }, &s).is_ok(), "own signatures are accepted");
    kani::cover!(true, "signed");
}
