// Properties that combine the contracts of several parts.

prop C03 Parse Apply NewTextApplier (*TextApplier).ApplyFragment (*TextApplier).Close NewBinaryApplier (*BinaryApplier).ApplyFragment (*BinaryApplier).Close without=content,self,names,subject
prop C12 Parse ParsePatchHeader ParsePatchIdentity ParsePatchDate Apply NewTextApplier (*TextApplier).ApplyFragment (*TextApplier).Close NewBinaryApplier (*BinaryApplier).ApplyFragment (*BinaryApplier).Close (*BinaryFragment).Data (*binaryReader).Read kinds=all without=content,self,names,io,subject
prop C17 Apply NewTextApplier (*TextApplier).ApplyFragment (*TextApplier).Close NewBinaryApplier (*BinaryApplier).ApplyFragment (*BinaryApplier).Close (*BinaryFragment).Data (*binaryReader).Read (*TextFragment).Validate (*TextFragment).String (*TextFragment).Header (*BinaryFragment).String (*File).String without=content,self,names,io,subject
