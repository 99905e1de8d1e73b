program fdriver
  use SimintFortran
  use iso_c_binding
  implicit none
  interface
    subroutine cs_fill(s, p) bind(C, name="cs_fill")
      use iso_c_binding
      type(C_PTR), value :: s, p
    end subroutine
    subroutine cs_show(s, p) bind(C, name="cs_show")
      use iso_c_binding
      type(C_PTR), value :: s, p
    end subroutine
    subroutine cs_run() bind(C, name="cs_run")
    end subroutine
    subroutine cs_cmp(id, s) bind(C, name="cs_cmp")
      use iso_c_binding
      integer(C_INT), value :: id
      type(C_PTR), value :: s
    end subroutine
    subroutine cs_cmpp(id, s) bind(C, name="cs_cmpp")
      use iso_c_binding
      integer(C_INT), value :: id
      type(C_PTR), value :: s
    end subroutine
    subroutine cs_i(id, v) bind(C, name="cs_i")
      use iso_c_binding
      integer(C_INT), value :: id, v
    end subroutine
    subroutine cs_d(id, n, v) bind(C, name="cs_d")
      use iso_c_binding
      integer(C_INT), value :: id, n
      type(C_PTR), value :: v
    end subroutine
  end interface
  type(c_simint_shell), target :: s, sh(6), cp
  type(c_simint_multi_shellpair), target :: p, mp(3), mo
  integer(C_INTPTR_T) :: ip
  double precision, target :: al(3), co(3), ints(20000), z(2), x(2), y(2), w(2)
  double precision, allocatable, target :: work(:)
  integer :: i, r

  ! members, C to Fortran
  call cs_fill(C_LOC(s), C_LOC(p))
  call fi("s.am", int(s%am, C_INTPTR_T)); call fi("s.nprim", int(s%nprim, C_INTPTR_T))
  call fd("s.x", s%x); call fd("s.y", s%y); call fd("s.z", s%z)
  call fi("s.alpha", transfer(s%alpha, ip)); call fi("s.coef", transfer(s%coef, ip))
  call fi("s.memsize", int(s%memsize, C_INTPTR_T)); call fi("s.ptr", transfer(s%ptr, ip))
  call fi("p.am1", int(p%am1, C_INTPTR_T)); call fi("p.am2", int(p%am2, C_INTPTR_T)); call fi("p.nprim", int(p%nprim, C_INTPTR_T))
  call fi("p.nshell12", int(p%nshell12, C_INTPTR_T)); call fi("p.nshell12_clip", int(p%nshell12_clip, C_INTPTR_T))
  call fi("p.nprim12", transfer(p%nprim12, ip)); call fi("p.AB_x", transfer(p%AB_x, ip)); call fi("p.AB_y", transfer(p%AB_y, ip)); call fi("p.AB_z", transfer(p%AB_z, ip))
  call fi("p.x", transfer(p%x, ip)); call fi("p.y", transfer(p%y, ip)); call fi("p.z", transfer(p%z, ip))
  call fi("p.PA_x", transfer(p%PA_x, ip)); call fi("p.PA_y", transfer(p%PA_y, ip)); call fi("p.PA_z", transfer(p%PA_z, ip))
  call fi("p.PB_x", transfer(p%PB_x, ip)); call fi("p.PB_y", transfer(p%PB_y, ip)); call fi("p.PB_z", transfer(p%PB_z, ip))
  call fi("p.alpha", transfer(p%alpha, ip))
#if MAXDER > 0
  call fi("p.alpha2", transfer(p%alpha2, ip)); call fi("p.beta2", transfer(p%beta2, ip))
#endif
  call fi("p.prefac", transfer(p%prefac, ip)); call fi("p.screen", transfer(p%screen, ip)); call fd("p.screen_max", p%screen_max)
  call fi("p.memsize", int(p%memsize, C_INTPTR_T)); call fi("p.ptr", transfer(p%ptr, ip))
  flush(6)

  ! the same scenario by the two interfaces
  call cs_run()
  call simint_init()
  call simint_initialize_shell(sh(6)); call cs_cmp(1, C_LOC(sh(6)))
  call simint_initialize_shells(5, sh)
  do i = 1, 5
    call cs_cmp(10 + i, C_LOC(sh(i)))
  end do
  do i = 1, 4
    al = (/ 0.55d0 + i, 1.35d0 * i, 3.3d0 /); co = (/ 0.7d0, -0.21d0 * i, 1.7d0 /)
    call simint_create_shell(3, mod(i - 1, 2), 0.3d0 * i, -0.23d0 * i, 1.1d0 / i, al, co, sh(i))
    call cs_cmp(20 + i, C_LOC(sh(i)))
  end do
  call simint_normalize_shells(3, sh)
  do i = 1, 4
    call cs_cmp(30 + i, C_LOC(sh(i)))
  end do
  call simint_create_zero_shell(sh(5)); call cs_cmp(41, C_LOC(sh(5)))
  call simint_initialize_shell(cp)
  call simint_copy_shell(sh(2), cp); call cs_cmp(42, C_LOC(cp)); call cs_cmp(43, C_LOC(sh(2)))
  call simint_initialize_multi_shellpair(mo); call cs_cmpp(50, C_LOC(mo))
  call simint_initialize_multi_shellpairs(3, mp)
  do i = 1, 3
    call cs_cmpp(50 + i, C_LOC(mp(i)))
  end do
  call simint_create_multi_shellpair(1, sh(1:1), 2, (/ sh(2), sh(4) /), mp(1), 0); call cs_cmpp(60, C_LOC(mp(1)))
  call simint_create_multi_shellpair(1, sh(3:3), 1, sh(1:1), mo, 1); call cs_cmpp(61, C_LOC(mo))
  call simint_create_multi_shellpair2(2, (/ sh(1), sh(4), sh(3), sh(2) /), mp(2), 2); call cs_cmpp(62, C_LOC(mp(2)))
  call cs_i(70, simint_eri_worksize(0, 1)); call cs_i(71, simint_eri_workmem(0, 1)); call cs_i(72, simint_eri_worksize(0, 0)); call cs_i(73, simint_eri_workmem(0, 0))
#if MAXDER > 0
  call cs_i(74, simint_eri_worksize(1, 1)); call cs_i(75, simint_eri_workmem(1, 1)); call cs_i(76, simint_eri_worksize(1, 0))
#endif
  allocate(work(1000000))
  ints = 7.0d0; r = simint_compute_eri(mp(1), mp(2), 0.0d0, work, ints); call cs_i(80, r); call cs_d(81, 20000, C_LOC(ints))
  ints = 7.0d0; r = simint_compute_eri(mo, mp(2), 1.0d-3, work, ints); call cs_i(82, r); call cs_d(83, 20000, C_LOC(ints))
#if MAXDER > 0
  ints = 7.0d0; r = simint_compute_eri_deriv(1, mp(1), mp(2), 0.0d0, work, ints); call cs_i(84, r); call cs_d(85, 20000, C_LOC(ints))
#endif
  ints = 7.0d0; r = simint_compute_eri_deriv(0, mo, mp(2), 1.0d-2, work, ints); call cs_i(86, r); call cs_d(87, 20000, C_LOC(ints))
  ints = 7.0d0; r = simint_compute_overlap(sh(1), sh(2), ints); call cs_i(90, r); call cs_d(91, 100, C_LOC(ints))
  ints = 7.0d0; r = simint_compute_ke(sh(3), sh(2), ints); call cs_i(92, r); call cs_d(93, 100, C_LOC(ints))
  z = (/ 2.1d0, 5.2d0 /); x = (/ 0.6d0, 1.3d0 /); y = (/ -0.7d0, 0.24d0 /); w = (/ 3.3d0, -1.1d0 /)
  ints = 7.0d0; r = simint_compute_potential(0, z, x, y, w, sh(4), sh(1), ints); call cs_i(96, r); call cs_d(97, 100, C_LOC(ints))
  ints = 7.0d0; r = simint_compute_potential(1, z, x, y, w, sh(2), sh(4), ints); call cs_i(98, r); call cs_d(99, 100, C_LOC(ints))
  ints = 7.0d0; r = simint_compute_potential(2, z, x, y, w, sh(4), sh(1), ints); call cs_i(94, r); call cs_d(95, 100, C_LOC(ints))
  call simint_allocate_shell(2, cp); call cs_cmp(100, C_LOC(cp))
  call simint_free_multi_shellpair(mo); call cs_cmpp(101, C_LOC(mo))
  call simint_free_multi_shellpairs(2, mp)
  do i = 1, 3
    call cs_cmpp(110 + i, C_LOC(mp(i)))
  end do
  call simint_free_shell(cp); call cs_cmp(120, C_LOC(cp))
  call simint_free_shells(5, sh)
  do i = 1, 5
    call cs_cmp(120 + i, C_LOC(sh(i)))
  end do
  call simint_finalize()
  write(*, '(A)') "DONE"
contains
  subroutine fi(n, v)
    character(*), intent(in) :: n
    integer(C_INTPTR_T), intent(in) :: v
    write(*, '(A,1X,A,1X,I0)') "F", n, v
  end subroutine
  subroutine fd(n, v)
    character(*), intent(in) :: n
    real(C_DOUBLE), intent(in) :: v
    write(*, '(A,1X,A,1X,ES26.17E3)') "F", n, v
  end subroutine
end program
