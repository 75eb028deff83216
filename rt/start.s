	.text
	.globl _start
_start:
	xorl %ebp, %ebp
	andq $-16, %rsp
	movq $main, %rax
	call *%rax
	movl %eax, %edi
	movl $231, %eax
	syscall
	.globl rt_write
rt_write:
	movl $1, %edi
	leaq rt_buffer(%rip), %rsi
	movl rt_used(%rip), %edx
	movl $1, %eax
	syscall
	ret
