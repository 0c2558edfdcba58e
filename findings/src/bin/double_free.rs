use tree_iterators_rs::prelude::*; use streaming_iterator::StreamingIterator; use std::rc::Rc;
struct CN{v:u32,c:Vec<CN>}
impl<'a> MutBorrowedTreeNode<'a> for CN{type MutBorrowedValue=&'a mut u32;type MutBorrowedChildren=Vec<&'a mut CN>;fn get_value_and_children_iter_mut(&'a mut self)->(&'a mut u32,Vec<&'a mut CN>){(&mut self.v,self.c.iter_mut().collect())}}
impl<'a> BorrowedTreeNode<'a> for CN{type BorrowedValue=&'a u32;type BorrowedChildren=Vec<&'a CN>;fn get_value_and_children_iter(&'a self)->(&'a u32,Vec<&'a CN>){(&self.v,self.c.iter().collect())}}
fn mk(r:&Rc<()>,d:u32)->Tree<Rc<()>>{Tree{value:r.clone(),children:if d==0{vec![]}else{(0..3).map(|_|mk(r,d-1)).collect()}}}
fn mkb(r:&Rc<()>,d:u32)->BinaryTree<Rc<()>>{BinaryTree{value:r.clone(),left:if d==0{None}else{Some(Box::new(mkb(r,d-1)))},right:if d==0{None}else{Some(Box::new(mkb(r,d-1)))}}}
fn main(){ let a=std::env::args().nth(1).unwrap();
 if a=="leak"{
  macro_rules! t{($n:expr,$mkt:expr,$e:expr,$tot:expr)=>{ let mut bad=vec![]; for k in 0..$tot+2{ let r=Rc::new(()); { let t=$mkt(&r,3); let mut it=$e(t); for _ in 0..k{ it.next(); } drop(it);} if Rc::strong_count(&r)!=1{bad.push((k,Rc::strong_count(&r)-1))} } println!("{} {:?}",$n,bad); }}
  t!("bfs",mk,|t:Tree<Rc<()>>|t.bfs(),40);
  t!("bfs anc",mk,|t:Tree<Rc<()>>|t.bfs().attach_ancestors(),40);
  t!("bfs ctx",mk,|t:Tree<Rc<()>>|t.bfs().attach_context(),40);
  t!("bfs anc leaves",mk,|t:Tree<Rc<()>>|t.bfs().attach_ancestors().leaves(),40);
  t!("bbfs ctx",mkb,|t:BinaryTree<Rc<()>>|t.bfs().attach_context(),15);
  t!("bbfs anc",mkb,|t:BinaryTree<Rc<()>>|t.bfs().attach_ancestors(),15);
  t!("pre ctx",mk,|t:Tree<Rc<()>>|t.dfs_preorder().attach_context(),40);
  t!("post ctx",mk,|t:Tree<Rc<()>>|t.dfs_postorder().attach_context(),40);
  t!("in ctx",mkb,|t:BinaryTree<Rc<()>>|t.dfs_inorder().attach_context(),15);
  t!("in anc",mkb,|t:BinaryTree<Rc<()>>|t.dfs_inorder().attach_ancestors(),15);
  t!("post anc leaves",mk,|t:Tree<Rc<()>>|t.dfs_postorder().attach_ancestors().leaves(),40);
 } else {
  let mut t=CN{v:0,c:vec![CN{v:1,c:vec![CN{v:2,c:vec![]}]},CN{v:3,c:vec![]}]};
  if a=="b"{ let mut it=t.dfs_postorder_iter().attach_context(); while let Some(c)=it.next(){println!("{:?} {:?}",c.path(),c.children().len());} }
  if a=="m"{ let mut it=t.dfs_postorder_iter_mut().attach_context(); while let Some(c)=it.next(){println!("{:?} {:?}",c.path(),c.children().len());} }
  if a=="p"{ let mut it=t.dfs_preorder_iter_mut().attach_context(); while let Some(c)=it.next(){println!("{:?} {:?}",c.path(),c.children().len());} }
 }
}
