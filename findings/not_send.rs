//! Finding (C19): does not compile, although u8 is Send and Sync; the same
//! program with dfs_preorder_iter_mut or bfs_iter_mut does.
//! cargo +stable check with this file as src/bin/not_send.rs
use tree_iterators_rs::prelude::*;
fn main() {
    let mut t = BinaryTree { value: 1u8, left: None, right: None };
    let i = t.dfs_postorder_iter_mut().attach_context(); // dfs_inorder_iter_mut as well
    std::thread::scope(|s| {
        s.spawn(move || drop(i));
    });
}
