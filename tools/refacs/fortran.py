F = 'upwind/fortran/upwind.F90'
F3 = 'upwind/fortran/upwindF03.F90'
F8 = 'upwind/fortran/upwindF08.F90'
MM = 'matmult/fortran/matmult.F90'
FU = 'C07 C10 C11 C12 C14 C15 C17 C18 C19'

LOOP = '''            do j = 1, obj % ndims
                
                ! cache the cell index
                oldIndex = inds(j)
                
                ! increment the cell index
                inds(j) = inds(j) + obj % upDirection(j)
                
                ! apply periodic BCs
                inds(j) = modulo(inds(j) + obj % numCells(j) - 1, obj % numCells(j)) + 1
                  
                ! compute the new flat index 
                call upwind_getFlatIndex(obj, inds, upI)
                    
                ! update the field
                obj % f(i) = obj % f(i) - &
              &   deltaTime*obj % v(j)*obj % upDirection(j)*(oldF(upI) - oldF(i))/obj % deltas(j)
                    
                ! reset the index
                inds(j) = oldIndex
           enddo
'''
LOOP8 = LOOP.replace('obj %', 'this %').replace('call upwind_getFlatIndex(obj, inds, upI)', 'upI = this % getFlatIndex(inds)').replace('deltas(j)\n' + ' ' * 20, 'deltas(j)\n' + ' ' * 9)
CT = '''        obj % ntot = 1       
        do j = 1, obj % ndims
            obj % upDirection(j) = -1
            if (velocity(j) < 0.) then
                obj % upDirection(j) = 1
            endif
            obj % deltas(j) = lengths(j) / numCells(j)
            obj % ntot = obj % ntot * numCells(j)
        enddo
        
        obj % dimProd(obj % ndims) = 1
        do j = obj % ndims - 1, 1, -1
            obj % dimProd(j) =  obj % dimProd(j + 1) * obj % numCells(j + 1)
        enddo
'''
NAIVE = '''        do k = 1, el
            do i = 1, n
                c(i, k) = 0
                do j = 1, m
                    c(i, k) = c(i, k) + a(i, j)*b(j, k)
                enddo
            enddo
        enddo
    end subroutine matmult0
'''
CONC = '''        do concurrent (k = 1:el)
            do i = 1, n
                c(i, k) = 0
                do j = 1, m
                    c(i, k) = c(i, k) + a(i, j)*b(j, k)
                enddo
            enddo
        enddo
'''

REFACS = [
    dict(id='f-ctor', checks=FU, edits=[(F, CT, '''        where (velocity < 0)
            obj % upDirection = 1
        elsewhere
            obj % upDirection = -1
        end where
        obj % deltas = lengths / numCells
        obj % ntot = product(numCells)

        do j = 1, obj % ndims
            obj % dimProd(j) = product(numCells(j + 1:))
        enddo
''')]),
    dict(id='f-ctor-merge', checks=FU, edits=[(F, CT, '''        obj % upDirection = merge(1, -1, velocity < 0._r8)
        obj % deltas(:) = lengths(:) / real(numCells(:), r8)

        obj % ntot = 1
        do j = obj % ndims, 1, -1
            obj % dimProd(j) = obj % ntot
            obj % ntot = obj % ntot * obj % numCells(j)
        enddo
''')]),
    dict(id='f-alloc', checks=FU, edits=[
        (F, '''        allocate(obj % upDirection(obj % ndims))
        allocate(obj % deltas(obj % ndims))
        allocate(obj % v(obj % ndims))
        allocate(obj % lengths(obj % ndims))
        allocate(obj % numCells(obj % ndims))
        allocate(obj % dimProd(obj % ndims))
        
        obj % v = velocity
        obj % lengths = lengths
        obj % numCells = numCells
''', '''        allocate(obj % upDirection(obj % ndims), obj % deltas(obj % ndims), obj % dimProd(obj % ndims))
        allocate(obj % v(obj % ndims), source=velocity)
        allocate(obj % lengths(obj % ndims), source=lengths)
        allocate(obj % numCells(obj % ndims), source=numCells)
'''),
        (F, '''        allocate(obj % f(obj % ntot))
        
        ! initialize the field, zero everywhere except for the 
        ! low corner cell where the field is one
        obj % f = 0
        obj % f(1) = 1
''', '''        allocate(obj % f(obj % ntot))
        obj % f(1) = 1
        obj % f(2:) = 0
'''),
        (F, '''        deallocate(obj % v)
        deallocate(obj % lengths)
        deallocate(obj % numCells)    
        deallocate(obj % upDirection)
        deallocate(obj % deltas)
        deallocate(obj % dimProd)
        deallocate(obj % f)
''', '''        deallocate(obj % f, obj % dimProd, obj % deltas)
        deallocate(obj % upDirection, obj % numCells, obj % lengths, obj % v)
'''),
        (F, '''        allocate(oldF(obj % ntot))
        oldF = obj % f
''', '''        oldF = obj % f
''')]),
    dict(id='f-kernel', checks=FU, edits=[
        (F, LOOP, '''            change = 0
            do j = 1, obj % ndims
                upI = i + obj % dimProd(j)*(neighbor(inds(j), obj % upDirection(j), obj % numCells(j)) - inds(j))
                change = change + obj % v(j)*obj % upDirection(j)/obj % deltas(j)*(oldF(upI) - oldF(i))
            enddo
            obj % f(i) = oldF(i) - deltaTime*change
'''),
        (F, 'integer :: i, j, oldIndex, upI\n        integer :: inds(obj % ndims)\n', 'integer :: i, j, upI\n        integer :: inds(obj % ndims)\n        real(r8) :: change\n'),
        (F, 'private(inds, j, oldIndex, upI)', 'private(inds, j, upI, change)'),
        (F, 'PRIVATE(i, j, inds, oldIndex, upI)', 'PRIVATE(i, j, inds, upI, change)'),
        (F, '''    subroutine upwind_saveVTK(obj''', '''    ! periodic neighbour along an axis
    pure integer function neighbor(k, dir, n) result(res)
        integer, intent(in) :: k, dir, n
        res = k + dir
        if (res < 1) then
            res = n
        else if (res > n) then
            res = 1
        end if
    end function neighbor

    subroutine upwind_saveVTK(obj'''),
    ]),
    dict(id='f-indexset', checks=FU, edits=[
        (F, '''        do i = 1, obj % ndims
            res(i) = mod((flatIndex - 1)/obj % dimProd(i), obj % numCells(i)) + 1
        enddo
''', '''        integer :: rest
        rest = flatIndex - 1
        do i = obj % ndims, 1, -1
            res(i) = mod(rest, obj % numCells(i)) + 1
            rest = rest / obj % numCells(i)
        enddo
'''),
        (F, '''        res = dot_product(obj % dimProd, inds - 1) + 1
''', '''        res = 1 + sum(obj % dimProd*(inds - 1))
''')]),
    dict(id='f-indexset-array', checks=FU, edits=[
        (F, '''        integer :: i
        do i = 1, obj % ndims
            res(i) = mod((flatIndex - 1)/obj % dimProd(i), obj % numCells(i)) + 1
        enddo
''', '''        res(1:obj % ndims) = 1 + modulo((flatIndex - 1)/obj % dimProd, obj % numCells)
''')]),
    dict(id='f-associate', checks=FU, edits=[
        (F, LOOP, '''            associate (n => obj % numCells, d => obj % upDirection, p => obj % dimProd)
            do j = 1, obj % ndims
                oldIndex = inds(j)
                inds(j) = 1 + modulo(inds(j) - 1 + d(j), n(j))
                upI = 1 + dot_product(p, inds - 1)
                obj % f(i) = obj % f(i) - &
              &   deltaTime*obj % v(j)*d(j)/obj % deltas(j)*(oldF(upI) - oldF(i))
                inds(j) = oldIndex
            enddo
            end associate
''')]),
    dict(id='f-cshift', checks='C10 C11 C12 C14 C18 C19', edits=[
        (F, '''        do i = 1, obj % ntot

            ! compute the index set of this cell
            call upwind_getIndexSet(obj, i, inds)

''' + LOOP + '''        enddo
        !$OMP END PARALLEL DO
''', '''        do i = 1, obj % ntot
            call upwind_getIndexSet(obj, i, inds)
            obj % f(i) = oldF(i) - sum([(flux(j), j = 1, obj % ndims)])
        enddo
        !$OMP END PARALLEL DO

    contains

        real(r8) function flux(j)
            integer, intent(in) :: j
            integer :: ups(obj % ndims), k
            ups = inds
            ups(j) = modulo(inds(j) - 1 + obj % upDirection(j), obj % numCells(j)) + 1
            call upwind_getFlatIndex(obj, ups, k)
            flux = deltaTime*obj % v(j)*obj % upDirection(j)/obj % deltas(j)*(oldF(k) - oldF(i))
        end function
''')]),
    dict(id='f-vtk', checks='C15 C07 C16', edits=[
        (F, '''        do i = 1, obj % ntot
            write(iunit, '(e20.7)') obj % f(i)
        enddo
    
        close(iunit)
''', '''        write(iunit, '(e20.7)') (obj % f(i), i = 1, obj % ntot)
        close(iunit)
'''),
        (F, '''            do i = 1, obj % numCells(3) + 1
                write(iunit, '(e20.7)') 0.0 + obj % deltas(3) * (i - 1)
            enddo      
''', '''            do i = 0, obj % numCells(3)
                write(iunit, '(e20.7)') i * obj % deltas(3)
            enddo      
'''),
        (F, '''        iunit = 10
        ! f95
        open(unit = iunit, file = filename, status = 'unknown')
''', '''        open(newunit = iunit, file = filename, status = 'replace', action = 'write')
'''),
        (F, '''        if (obj % ndims > 2) then
            write(iunit, '(a, i10, i10, i10)') 'DIMENSIONS ', &
             & obj % numCells(3) + 1, obj % numCells(2) + 1, obj % numCells(1) + 1
        else
            if (obj % ndims > 1) then
                write(iunit, '(a, i10, i10)') 'DIMENSIONS 1', &
             & obj % numCells(2) + 1, obj % numCells(1) + 1
            else
                write(iunit, '(a, i10)') 'DIMENSIONS 1 1', obj % numCells(1) + 1
            endif 
        endif 
''', '''        select case (obj % ndims)
        case (3)
            write(iunit, '(a, 3i10)') 'DIMENSIONS ', obj % numCells(3:1:-1) + 1
        case (2)
            write(iunit, '(a, 2i10)') 'DIMENSIONS 1', obj % numCells(2) + 1, obj % numCells(1) + 1
        case default
            write(iunit, '(a, i10)') 'DIMENSIONS 1 1', obj % numCells(1) + 1
        end select
''')]),
    dict(id='f-main', checks='C07 C12 C14 C16 C18 C19', edits=[
        (F, '''    dt = huge(1.0_r8)
    do j = 1, ndims
        dx = lengths(j) / real(numCells(j), r8)
        val = courant * dx / velocity(j)
        dt = min(val, dt)
    enddo
''', '''    dt = minval(courant * lengths / real(numCells, r8) / velocity)
'''),
        (F, '''        if (argc == 1) then
            numCells = n
        else if (argc == 2) then
            numTimeSteps = n
        else if (argc == 3 .and. argv == 'vtk') then
            doVtk = .TRUE.
        endif
''', '''        select case (argc)
        case (1)
            numCells(:) = n
        case (2)
            numTimeSteps = n
        case (3)
            doVtk = (trim(argv) == 'vtk')
        end select
''')]),
    dict(id='f08-kernel', checks=FU, edits=[
        (F8, LOOP8, '''            do j = 1, this % ndims
                oldIndex = inds(j)
                if (this % upDirection(j) < 0) then
                    inds(j) = merge(this % numCells(j), oldIndex - 1, oldIndex == 1)
                else
                    inds(j) = merge(1, oldIndex + 1, oldIndex == this % numCells(j))
                end if
                upI = this % getFlatIndex(inds)
                this % f(i) = this % f(i) + deltaTime*abs(this % v(j))/this % deltas(j)*(oldF(upI) - oldF(i))
                inds(j) = oldIndex
            end do
''')]),
    dict(id='f08-local', checks=FU, edits=[
        (F8, '''        do concurrent (i = 1:this % ntot)
''', '''        do i = 1, this % ntot
''')]),
    dict(id='mm-column', checks='C14 C17', edits=[(MM, NAIVE, '''        do k = 1, el
            c(:, k) = 0
            do j = 1, m
                do i = 1, n
                    c(i, k) = c(i, k) + a(i, j)*b(j, k)
                enddo
            enddo
        enddo
    end subroutine matmult0
''')]),
    dict(id='mm-dot', checks='C14 C17', edits=[(MM, CONC, '''        do concurrent (k = 1:el, i = 1:n)
            c(i, k) = dot_product(a(i, :), b(:, k))
        enddo
''')]),
    dict(id='mm-intrinsic', checks='C14 C17', edits=[(MM, CONC, '''        c = matmul(a, b)
''')]),
    dict(id='mm-sum', checks='C14 C17', edits=[(MM, CONC, '''        do concurrent (k = 1:el)
            do i = 1, n
                c(i, k) = sum(a(i, 1:m)*b(1:m, k))
            enddo
        enddo
''')]),
    dict(id='mm-init', checks='C14 C17', edits=[(MM, '''                a(i, j) = count
                count = count + 1
''', '''                a(i, j) = (j - 1)*n + i
'''), (MM, '''        do k  = 1, el
            do j = 1, m
                b(j, k) = count
                count = count + 1
''', '''        count = n*m
        do k  = 1, el
            do j = 1, m
                count = count + 1
                b(j, k) = count
''')]),
]
