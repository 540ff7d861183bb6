// The out-of-line part of libstdc++'s std::list (libstdc++-v3/src/c++98/list.cc), as code
#pragma once
#include <list>
namespace std _GLIBCXX_VISIBILITY(default)
{
namespace __detail
{
void _List_node_base::swap(_List_node_base& __x, _List_node_base& __y) noexcept
{
  if(__x._M_next != &__x)
  {
    if(__y._M_next != &__y)
    {
      std::swap(__x._M_next, __y._M_next);
      std::swap(__x._M_prev, __y._M_prev);
      __x._M_next->_M_prev = __x._M_prev->_M_next = &__x;
      __y._M_next->_M_prev = __y._M_prev->_M_next = &__y;
    }
    else
    {
      __y._M_next = __x._M_next;
      __y._M_prev = __x._M_prev;
      __y._M_next->_M_prev = __y._M_prev->_M_next = &__y;
      __x._M_next = __x._M_prev = &__x;
    }
  }
  else if(__y._M_next != &__y)
  {
    __x._M_next = __y._M_next;
    __x._M_prev = __y._M_prev;
    __x._M_next->_M_prev = __x._M_prev->_M_next = &__x;
    __y._M_next = __y._M_prev = &__y;
  }
}
void _List_node_base::_M_transfer(_List_node_base* const __first, _List_node_base* const __last) noexcept
{
  if(this != __last)
  {
    __last->_M_prev->_M_next = this;
    __first->_M_prev->_M_next = __last;
    this->_M_prev->_M_next = __first;
    _List_node_base* const __tmp = this->_M_prev;
    this->_M_prev = __last->_M_prev;
    __last->_M_prev = __first->_M_prev;
    __first->_M_prev = __tmp;
  }
}
void _List_node_base::_M_hook(_List_node_base* const __position) noexcept
{
  this->_M_next = __position;
  this->_M_prev = __position->_M_prev;
  __position->_M_prev->_M_next = this;
  __position->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
  _List_node_base* const __next_node = this->_M_next;
  _List_node_base* const __prev_node = this->_M_prev;
  __prev_node->_M_next = __next_node;
  __next_node->_M_prev = __prev_node;
}
}
}
