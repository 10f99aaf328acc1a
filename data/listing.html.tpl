<folder>${out value=folder_path /}</folder>
${foreach item=entry from=entries}<row>${if item=entry.type value=1 operator=eq}D${/if}${if item=entry.type value=2 operator=eq}F${/if}${if item=entry.type value=3 operator=eq}L${/if}<name>${out value=entry.name /}</name><time>${out value=entry.time /}</time><bytes>${out value=entry.size /}</bytes><human>${out value=entry.size_string /}</human></row>
${/foreach}<items>${out value=items /}</items>
