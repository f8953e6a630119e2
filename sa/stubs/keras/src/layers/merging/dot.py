from _sa import batch_dot
