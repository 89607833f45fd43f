// C01: pages are consecutive, bounded slices of a list.

func common/util.PagingOffset
  property C01
  requires total >= 0
  hint mul: implies(page >= 1 && size >= 1 && total >= 1 && page-1 <= (total-1)/size, (page-1)*size <= ((total-1)/size)*size)
  hint mul2: implies(page >= 1 && size >= 1 && total >= 1 && page-1 > (total-1)/size, (page-1)*size >= ((total-1)/size+1)*size)
  ensures refused: implies(page < 1 || size < 1, !result2)
  ensures past: implies(page >= 1 && size >= 1, result2 == ((page-1)*size < total))
  ensures window: implies(result2, result0 == (page-1)*size && result1 == min(page*size, total))
  ensures bounds: implies(result2, 0 <= result0 && result0 < result1 && result1 <= total)

// the order of the merged list is the order of bucket/name, the order the servers cut by
func (common/proto/msg.Metadata).ID
  property C01
  requires z != nil
  ensures id: result == z.Bucket+"/"+z.Name

func (common/proto/msg.Bucket).ID
  property C01
  requires z != nil
  ensures id: result == z.Name
