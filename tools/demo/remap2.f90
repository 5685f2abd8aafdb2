program t
  use iso_c_binding
  use remap2d_wrap
  implicit none
  integer, target :: x
  type(c_ptr) :: p
  integer s,r
  p = c_loc(x)
  call remap2d_setup(p,1,4,1,4,1,4,1,4,1,0,1,s,r)
  if (s /= 7 .or. r /= 8) stop 1
end program
