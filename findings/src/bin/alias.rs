use streaming_iterator::{StreamingIterator,StreamingIteratorMut};
use tree_iterators_rs::prelude::*;
fn leaf(v:i32)->BinaryTree<i32>{BinaryTree{value:v,left:None,right:None}}
fn main(){
  let a=std::env::args().nth(1).unwrap_or_default();
  let mut x=100; let mut y=100;
  if a=="p" {
    let mut t=BinaryTree{value:0,left:Some(Box::new(leaf(1))),right:None};
    let mut it=t.dfs_postorder_iter_mut().attach_context();
    let ctx=it.next_mut().unwrap();
    let v=std::mem::replace(ctx.ancestors_mut().last_mut().unwrap(), &mut x);
    let ctx=it.next_mut().unwrap();
    let c=ctx.children_mut()[0].take().unwrap();
    c.value=5; *v=6; println!("{} {}",c.value,v);
  } else if a=="i" {
    let mut t=BinaryTree{value:0,left:Some(Box::new(leaf(1))),right:None};
    let mut it=t.dfs_inorder_iter_mut().attach_context();
    let ctx=it.next_mut().unwrap();
    let v=std::mem::replace(ctx.ancestors_mut().last_mut().unwrap(), &mut x);
    let ctx=it.next_mut().unwrap();
    let c=ctx.children_mut()[0].take().unwrap();
    c.value=5; *v=6; println!("{} {}",c.value,v);
  } else {
    let mut t=Tree{value:0,children:vec![Tree{value:1,children:vec![]}]};
    let mut it=t.dfs_postorder_iter_mut().attach_context();
    let ctx=it.next_mut().unwrap();
    let v=std::mem::replace(ctx.ancestors_mut().last_mut().unwrap(), &mut x);
    let ctx=it.next_mut().unwrap();
    let mut e=vec![];
    let c=std::mem::replace(ctx.children_mut(), &mut e);
    c[0].value=5; *v=6; println!("{} {}",c[0].value,v);
  }
  let _=&mut y;
}
