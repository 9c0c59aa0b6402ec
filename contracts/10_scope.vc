@fn scope::Scope<T>::get
@ensures
        r == (if self.vars@.contains_key(name@) { Some(self.vars@[name@]) } else { None::<T> }),
@fn scope::Scope<T>::put_var
@ensures
        final(self).vars@ == old(self).vars@.insert(name@, value),
@fn scope::Scope<T>::with_var
@ensures
        r.vars@ == self.vars@.insert(name@, value),
@fn scope::Scope<T>::empty
@ensures
        r.vars@ =~= Map::<Seq<char>, T>::empty(),
@fn scope::Scope<T>::is_empty
@ensures
        r == (self.vars@ =~= Map::<Seq<char>, T>::empty()),
@fn scope::Scope<T>::len
@ensures
        r == self.vars@.dom().len(),
@end
